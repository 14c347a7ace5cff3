"""CURSOR: the conversion cursor reads what is there and advances exactly past it (C14)"""
from weave import C, L, Theory
from common import RANGE
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ONE = 'x.offset == self.offset && x.length == 1'


def reader(kind, pat, val):
    cond = 'self.data@.len() > 0 && (self.data@[0].data matches MetaData::%s && sv(n) == name@)' % pat
    if val:
        return C(ens=[('C14 succeeds exactly on such an item', 'r is Ok <==> %s' % cond),
                      ('C14 returns the value and the range of the item', 'r matches Ok(x) ==> x.0.offset == self.offset && x.0.length == 1 && (self.data@[0].data matches MetaData::%s && x.1 == v)' % pat)],
                 entry='proof { ax_eq(); }', nodec=False)
    return C(ens=[('C14 succeeds exactly on such an item', 'r is Ok <==> %s' % cond),
                  ('C14 returns the range of the item', 'r matches Ok(x) ==> x.offset == self.offset && x.length == 1')],
             entry='proof { ax_eq(); }', nodec=False)


def contracts():
    f = {}
    f.update({k: RANGE[k] for k in ['Range::new', 'Range::next_offset']})
    f['Range::is_empty'] = C(ens=[('value', 'r == (self.length == 0)')], nodec=False)
    f['Convert::new'] = C(ens=[('C14 starts at the first item', 'r.data@ == data@ && r.offset == 0')], nodec=False)
    f['Convert::remaining_data_len'] = C(ens=[('C14 number of items left', 'r == self.data@.len()')], nodec=False)
    f['Convert::subtract'] = C(req=[('not before the other', 'self.offset >= rhs.offset')],
                               ens=[('C14 range from the other cursor to this one', 'r.offset == rhs.offset && r.length == self.offset - rhs.offset')], nodec=False)
    f['Convert::source'] = C(
        req=[('a cursor further in the same data', 'rhs.data@.len() > 0 && self.offset > rhs.offset ==> self.offset - rhs.offset <= rhs.data@.len()'),
             ('ranges representable', 'forall|i: int| 0 <= i < rhs.data@.len() ==> #[trigger] rhs.data@[i].offset + rhs.data@[i].length <= usize::MAX'),
             ('data in text order', 'rhs.data@.len() > 0 && self.offset > rhs.offset ==> rhs.data@[0].offset <= rhs.data@[self.offset - rhs.offset - 1].offset + rhs.data@[self.offset - rhs.offset - 1].length')],
        ens=[('C14 nothing when nothing was read', 'r is None <==> rhs.data@.len() == 0 || self.offset <= rhs.offset'),
             ('C14 from the first to the last item read', 'r matches Some(x) ==> x.offset == rhs.data@[0].offset && x.offset + x.length == rhs.data@[self.offset - rhs.offset - 1].offset + rhs.data@[self.offset - rhs.offset - 1].length')], nodec=False)
    f['Convert::update'] = C(
        req=[('a range read with this cursor', 'range.offset + range.length <= usize::MAX && old(self).offset <= range.offset + range.length <= old(self).offset + old(self).data@.len()')],
        ens=[('C14 leaves exactly the rest', 'final(self).data@ == old(self).data@.skip(range.offset + range.length - old(self).offset)'),
             ('C14 position after the range', 'final(self).offset == range.offset + range.length')],
        entry='let ghost d0 = self.data@;', nodec=False)
    f['Convert::update'].hints = [(r'self\.offset = next_offset', 'proof { assert(self.data@ =~= d0.skip(range.offset + range.length - self.offset)); }', 'before')]
    f['Convert::start_node'] = reader('start', 'StartNode(n)', False)
    f['Convert::end_node'] = reader('end', 'EndNode(n)', False)
    f['Convert::meta_string'] = reader('string', 'String(n, v)', True)
    f['Convert::meta_f64'] = reader('f64', 'F64(n, v)', True)
    f['Convert::meta_bool'] = reader('bool', 'Bool(n, v)', True)
    f['Convert::ignore'] = C(ens=[('C14 exactly the next item or the whole node it starts', 'r == (Range { offset: self.offset, length: ext(self.data@, 0) as usize, data: () })'), ('within the data', 'r.length <= self.data@.len()')],
        entry='proof { lem_ext_len(self.data@, 0); }', nodec=False,
        loops={0: L(inv=[('counters', 'acc <= len <= self.data@.len() && len <= __i0 <= self.data@.len()')],
                    eb=[('C14 counts open nodes', 'len == __i0 && (len > 0 ==> acc > 0) && ext(self.data@, 0) == len + ext(self.data@.skip(len as int), acc as int)')],
                    ens=[('C14 counted', 'len == ext(self.data@, 0)')], dec='self.data@.len() - __i0',
                    start='proof { assert(self.data@.skip(len as int).skip(1) =~= self.data@.skip(len + 1)); }',
                    before='proof { assert(self.data@.skip(0) =~= self.data@); }')})
    return f


def theory():
    return Theory('cursor', ['prelude_base.rs', 'rtspec.rs', 'vpstd.rs', 'parse_base.rs', 'cursor.rs'], contracts())
