#!/bin/sh
cd ${REPO:-/repo} && /verif/extract/target/release/vextract src/lib.rs src/tokenizer.rs src/parse_error.rs src/parse_error_handler.rs src/json.rs src/optimize.rs src/meta_rules/*.rs src/bootstrap/convert.rs src/search/src/lib.rs
