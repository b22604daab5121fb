SEEDS = []


def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


RL = "src/radix_tree/lazy_radix_tree.rs"

S("lazy_from_tree_branch", "C28", [(RL, """        let children = children.into_iter().map(Self::from).collect::<Vec<_>>();
        let children = Lazy::initialized(Arc::new(children));
        Self {
            prefix,
            value,
            children,
        }
    }
}

impl<'a, K: TKey, V: TValue> LazyRadixTree<'a, K, V> {""", """        // nodes without content need not be kept
        let children = children
            .into_iter()
            .filter(|c| c.value.is_some() || c.children.iter().any(|d| d.value.is_some()))
            .map(Self::from)
            .collect::<Vec<_>>();
        let children = Lazy::initialized(Arc::new(children));
        Self {
            prefix,
            value,
            children,
        }
    }
}

impl<'a, K: TKey, V: TValue> LazyRadixTree<'a, K, V> {""")], """use vec_collections::radix_tree::*;
fn main() {
    let mut t: RadixTree<u8, u32> = RadixTree::default();
    for k in ["a", "bcdw", "bcdx", "bcey", "bcez"] { t.union_with(&RadixTree::single(k.as_bytes(), k.len() as u32)); }
    let l: LazyRadixTree<u8, u32> = t.clone().into();
    for k in ["a", "bcdw", "bcdx", "bcey", "bcez"] { assert!(l.contains_key(k.as_bytes()), "{}", k); }
}
""", "a node without value all of whose children have no value either", "the subtree is missing from the lazy tree")

S("lazy_from_archived_value", "C28", [(RL, """        LazyRadixTree {
            prefix: value.prefix().into(),
            value: value.value().cloned(),
            children,
        }""", """        // an inner node without prefix only holds its children together
        let inner = value.prefix().is_empty() && value.children().len() > 2;
        LazyRadixTree {
            prefix: value.prefix().into(),
            value: if inner { None } else { value.value().cloned() },
            children,
        }""")], """use rkyv::{ser::{serializers::AllocSerializer, Serializer}, archived_root};
use vec_collections::radix_tree::*;
fn main() {
    let mut t: RadixTree<u8, u32> = RadixTree::default();
    for k in ["", "a", "b", "c"] { t.union_with(&RadixTree::single(k.as_bytes(), 7)); }
    let l: LazyRadixTree<u8, u32> = t.into();
    let mut s: AllocSerializer<256> = Default::default();
    s.serialize_value(&l).unwrap();
    let bytes = s.into_serializer().into_inner();
    let r: &<LazyRadixTree<'static, u8, u32> as rkyv::Archive>::Archived = unsafe { archived_root::<LazyRadixTree<'static, u8, u32>>(&bytes) };
    let m: LazyRadixTree<u8, u32> = r.into();
    assert!(m.contains_key(b""));
    assert!(m.contains_key(b"a"));
}
""", "a root with the empty prefix, a value and at least three children", "the value of the empty key is lost when the archive is loaded")

S("lazy_clone_waits_itself", "C31", [(RL, """        let guard = self.mutex.lock();
        let data = unsafe { (&*self.data.get()).clone() };
        drop(guard);
        Self {""", """        let guard = self.mutex.lock();
        let data = match unsafe { &*self.data.get() } {
            Either::B(b) => Either::B(b.clone()),
            Either::A(a) => {
                // another thread may be about to load it
                let a = a.clone();
                let again = self.mutex.lock();
                drop(again);
                Either::A(a)
            }
        };
        drop(guard);
        Self {""")], """use std::{sync::mpsc::channel, thread, time::Duration};
use vec_collections::radix_tree::*;
fn main() {
    let (s, r) = channel();
    thread::spawn(move || {
        let t: LazyRadixTree<u8, u32> = Default::default();
        let u = t.clone();
        s.send(u.children().len()).unwrap();
    });
    assert_eq!(r.recv_timeout(Duration::from_secs(10)).ok(), Some(0));
}
""", "cloning a tree none of whose nodes has been looked at", "the clone never returns")

S("lazy_get_keeps_lock", "C31", [(RL, """        let guard = self.mutex.lock();
        let res = unsafe {
            if let Either::B(b) = &*self.data.get() {
                Some(b)
            } else {
                None
            }
        };
        drop(guard);
        res""", """        let guard = self.mutex.lock();
        let res = unsafe {
            if let Either::B(b) = &*self.data.get() {
                b
            } else {
                // nothing that would have to be protected
                core::mem::forget(guard);
                return None;
            }
        };
        drop(guard);
        Some(res)""")], """use std::{collections::BTreeMap, sync::mpsc::channel, thread, time::Duration};
use vec_collections::radix_tree::*;
fn main() {
    let (s, r) = channel();
    thread::spawn(move || {
        let t: LazyRadixTree<u8, u32> = Default::default();
        let mut m = BTreeMap::new();
        t.all_arcs(&mut m);
        s.send(t.children().len()).unwrap();
    });
    assert_eq!(r.recv_timeout(Duration::from_secs(10)).ok(), Some(0));
}
""", "asking for the arcs of a tree that is not loaded, then for its children", "the lock is never released and the next reader waits for ever")

