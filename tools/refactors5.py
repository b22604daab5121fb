"""behaviour-preserving edits: the lazily loaded tree"""
R = []
RL = "src/radix_tree/lazy_radix_tree.rs"
GOC = """        unsafe {
            let guard = self.mutex.lock();
            let data: &mut Either<A, B> = &mut *self.data.get();
            data.a_to_b(f);
            drop(guard);
            if let Either::B(data) = &*self.data.get() {
                data
            } else {
                panic!()
            }
        }
"""
R.append(("lazy_scope", ["C28", "C31"], [(RL, GOC, """        {
            let _guard = self.mutex.lock();
            let data: &mut Either<A, B> = unsafe { &mut *self.data.get() };
            data.a_to_b(f);
        }
        match unsafe { &*self.data.get() } {
            Either::B(data) => data,
            Either::A(_) => unreachable!(),
        }
""")]))
R.append(("lazy_match_inline", ["C28", "C31"], [(RL, GOC, """        unsafe {
            let guard = self.mutex.lock();
            let data = self.data.get();
            let fresh = match &*data {
                Either::A(a) => Some(f(*a)),
                Either::B(_) => None,
            };
            if let Some(fresh) = fresh {
                *data = Either::B(fresh);
            }
            drop(guard);
            if let Either::B(data) = &*data {
                data
            } else {
                panic!()
            }
        }
""")]))
R.append(("lazy_ref_under_lock", ["C28", "C31"], [(RL, GOC, """        unsafe {
            let guard = self.mutex.lock();
            (*self.data.get()).a_to_b(f);
            let res = match &*self.data.get() {
                Either::B(data) => data,
                _ => panic!(),
            };
            drop(guard);
            res
        }
""")]))
R.append(("lazy_fast_get", ["C28", "C31"], [(RL, GOC, """        if let Some(data) = self.get() {
            return data;
        }
        unsafe {
            let guard = self.mutex.lock();
            let data: &mut Either<A, B> = &mut *self.data.get();
            data.a_to_b(f);
            drop(guard);
        }
        self.get().unwrap()
""")]))
R.append(("lazy_get_match", ["C28", "C31"], [(RL, """        let guard = self.mutex.lock();
        let res = unsafe {
            if let Either::B(b) = &*self.data.get() {
                Some(b)
            } else {
                None
            }
        };
        drop(guard);
        res
""", """        let _guard = self.mutex.lock();
        match unsafe { &*self.data.get() } {
            Either::A(_) => None,
            Either::B(b) => Some(b),
        }
""")]))
R.append(("lazy_mut_get_mut", ["C28", "C31"], [(RL, """        unsafe {
            let guard = self.mutex.lock();
            let data: &mut Either<A, B> = &mut *self.data.get();
            data.a_to_b(f);
            drop(guard);
            if let Either::B(data) = &mut *self.data.get() {
                data
            } else {
                panic!()
            }
        }
""", """        // exclusive access, nobody else can hold the lock
        let data = self.data.get_mut();
        data.a_to_b(f);
        match data {
            Either::B(data) => data,
            Either::A(_) => panic!(),
        }
""")]))
R.append(("lazy_clone_match", ["C28", "C31"], [(RL, """        let guard = self.mutex.lock();
        let data = unsafe { (&*self.data.get()).clone() };
        drop(guard);
        Self {
            mutex: Mutex::new(()),
            data: UnsafeCell::new(data),
        }
""", """        let data = {
            let _guard = self.mutex.lock();
            match unsafe { &*self.data.get() } {
                Either::A(a) => Either::A(a.clone()),
                Either::B(b) => Either::B(b.clone()),
            }
        };
        Self {
            mutex: Default::default(),
            data: data.into(),
        }
""")]))
R.append(("lazy_mat_loop", ["C28", "C31"], [(RL, """    Arc::new(
        children
            .iter()
            .map(|child| LazyRadixTree {
                prefix: child.prefix.as_ref().into(),
                value: child.value.as_ref().cloned(),
                children: Lazy::uninitialized(child.children.as_ref()),
            })
            .collect(),
    )
""", """    let mut res = Vec::with_capacity(children.len());
    for child in children {
        res.push(LazyRadixTree {
            prefix: child.prefix().into(),
            value: child.value().cloned(),
            children: Lazy::uninitialized(child.children()),
        });
    }
    Arc::new(res)
""")]))
R.append(("lazy_a_to_b", ["C28", "C31"], [(RL, """        if let Either::A(a) = self {
            *self = Either::B(f(*a))
        }
""", """        match *self {
            Either::A(a) => {
                let b = f(a);
                *self = Either::B(b);
            }
            Either::B(_) => {}
        }
""")]))
