//# parse_str result outlives the input: E0505 E0597 E0506
fn f() {
    let s = String::from("{a b}");
    let r = inmem::parse_str(&s);
    #[cfg(bad)]
    drop(s);
    take(r);
}
//# parse_str_with result outlives the input: E0505 E0597
fn f() {
    let s = String::from("{a b}");
    let r = inmem::parse_str_with::<u8, u8>(&s, Default::default());
    #[cfg(bad)]
    drop(s);
    take(r);
}
//# one datum of a result outlives the input: E0505 E0597
fn f() {
    let s = String::from("{a b}");
    let d = inmem::parse_str(&s).remove(0).unwrap();
    #[cfg(bad)]
    drop(s);
    take(d);
}
//# the input is changed while a result exists: E0502 E0506
fn f() {
    let mut s = String::from("{a b}");
    let r = inmem::parse_str(&s);
    #[cfg(bad)]
    s.push('c');
    take(r);
}
//# an error's position outlives the input: E0505 E0597
fn f() {
    let s = String::from("}");
    let e = inmem::parse_str(&s).remove(0).unwrap_err();
    #[cfg(bad)]
    drop(s);
    take(e);
}
//# a result claims to live forever: E0621 E0515 E0716 lifetime
#[cfg(bad)]
fn f(s: &str) -> Vec<inmem::TopFormResult<'static>> {
    inmem::parse_str(s)
}
#[cfg(not(bad))]
fn f(s: &str) -> Vec<inmem::TopFormResult<'_>> {
    inmem::parse_str(s)
}
//# a chunk outlives its string: E0505 E0597
fn f() {
    let s = String::from("a");
    let c = PosStr::from(&s[..]);
    #[cfg(bad)]
    drop(s);
    take(c);
}
//# a text outlives its string: E0505 E0597
fn f() {
    let s = String::from("a");
    let c = TP::from_str(&s[..]);
    #[cfg(bad)]
    drop(s);
    take(c);
}
//# a chunk's stream outlives the string: E0505 E0597
fn f() {
    use kul::text::TextChunk;
    let s = String::from("a");
    let c = PosStr::from(&s[..]).src_strm();
    #[cfg(bad)]
    drop(s);
    take(c);
}
//# a character position outlives the string: E0505 E0597
fn f() {
    use kul::text::TextChunk;
    let s = String::from("a");
    let p = PosStr::from(&s[..]).src_strm().next().unwrap().pos;
    #[cfg(bad)]
    drop(s);
    take(p);
}
//# a chunk of a longer life than its string: E0308 E0597 E0621 lifetime
fn f<'l, 's: 'l>(x: &'s str, y: &'l str) -> PosStr<'s> {
    #[cfg(bad)]
    return PosStr::from(y);
    PosStr::from(x)
}
//# a text's iterator outlives the text: E0505 E0597
fn f() {
    let t = TP::from_str("a");
    let i = t.iter();
    #[cfg(bad)]
    drop(t);
    take(i);
}
//# a reference-counted text's iterator outlives the text: E0505 E0597
fn f() {
    let t = TS::from_str("a");
    let i = t.iter();
    #[cfg(bad)]
    drop(t);
    take(i);
}
//# a chunk reference outlives the text: E0505 E0597
fn f() {
    let t = TS::from_str("a");
    let i = t.iter_chunks().next();
    #[cfg(bad)]
    drop(t);
    take(i);
}
//# a text list's iterator outlives the text: E0505 E0597
fn f() {
    let t = TL::from_str("a");
    let i = t.iter_chunks().next();
    #[cfg(bad)]
    drop(t);
    take(i);
}
//# a datum of the core parser outlives the storage: E0505 E0597
fn f<'i>(t: &core_inmem::Text<'i, '_>) {
    let s = String::from("a");
    let mut storage: [core_inmem::DatumType<'_, '_>; 1] = [Datum::EmptyList];
    let mut alloc = core_inmem::DatumAllocator::new(&mut storage[..]);
    let d = alloc.new_datum(Datum::EmptyNest);
    #[cfg(bad)]
    drop(storage);
    take(d);
}
//# the storage is read while a datum in it is referenced: E0502 E0503 E0505
fn f() {
    let mut storage: [MutRefDatum<'_, TL<'_>, u8>; 2] = [Datum::EmptyList, Datum::EmptyList];
    let mut alloc = SliceDatumAllocator::new(&mut storage[..]);
    let d = alloc.new_datum(Datum::EmptyNest);
    #[cfg(bad)]
    take(&storage[0]);
    take(d);
}
//# the storage is changed while a datum in it is referenced: E0499 E0506
fn f() {
    let mut storage: [MutRefDatum<'_, TL<'_>, u8>; 2] = [Datum::EmptyList, Datum::EmptyList];
    let mut alloc = SliceDatumAllocator::new(&mut storage[..]);
    let d = alloc.new_datum(Datum::EmptyNest);
    #[cfg(bad)]
    { storage[0] = Datum::EmptyList; }
    take(d);
}
//# two allocators for one storage: E0499
fn f() {
    let mut storage: [MutRefDatum<'_, TL<'_>, u8>; 2] = [Datum::EmptyList, Datum::EmptyList];
    let mut a = SliceDatumAllocator::new(&mut storage[..]);
    #[cfg(bad)]
    let mut b = SliceDatumAllocator::new(&mut storage[..]);
    take(a.new_datum(Datum::EmptyNest));
}
//# an allocator is used after its unused part was taken: E0382
fn f(mut a: SliceDatumAllocator<'_, TL<'_>, u8>) {
    #[cfg(bad)]
    take(a.unused());
    take(a.new_datum(Datum::EmptyNest));
}
//# an allocation of a longer life than the storage: E0597 E0621 E0521 lifetime
#[cfg(bad)]
fn f<'l, 's: 'l, T: Text>(a: &mut SliceDatumAllocator<'l, T, u8>) -> Option<DatumMutRef<'s, T, u8>> {
    a.new_datum(Datum::EmptyNest).ok()
}
#[cfg(not(bad))]
fn f<'l, T: Text>(a: &mut SliceDatumAllocator<'l, T, u8>) -> Option<DatumMutRef<'l, T, u8>> {
    a.new_datum(Datum::EmptyNest).ok()
}
//# the unused part outlives the storage: E0597 E0621 E0521 lifetime
#[cfg(bad)]
fn f<'l, 's: 'l, T: Text>(a: SliceDatumAllocator<'l, T, u8>) -> Option<&'s mut [MutRefDatum<'s, T, u8>]> {
    a.unused()
}
#[cfg(not(bad))]
fn f<'l, T: Text>(a: SliceDatumAllocator<'l, T, u8>) -> Option<&'l mut [MutRefDatum<'l, T, u8>]> {
    a.unused()
}
//# a result of the core parser outlives the input: E0505 E0597
fn f() {
    let s = String::from("{a b}");
    let mut storage = [Datum::EmptyList, Datum::EmptyList];
    let t = core_inmem::Text::from_str(&s);
    let mut p = core_inmem::parser_no_bind(&mut storage);
    let d = core_inmem::parse_text_with(&t, &mut p).next();
    #[cfg(bad)]
    drop(s);
    take(d);
}
//# a result of the core parser outlives the datum storage: E0597
fn f() {
    let s = String::from("{a b}");
    let d;
    #[cfg(not(bad))]
    let mut storage = [Datum::EmptyList, Datum::EmptyList];
    {
        #[cfg(bad)]
        let mut storage = [Datum::EmptyList, Datum::EmptyList];
        let t = core_inmem::Text::from_str(&s);
        let mut p = core_inmem::parser_no_bind(&mut storage);
        d = core_inmem::parse_text_with(&t, &mut p).next();
    }
    take(d);
}
//# the core parser is used while its results are being iterated: E0499
fn f() {
    let mut storage = [Datum::EmptyList, Datum::EmptyList];
    let t = core_inmem::Text::from_str("{a b}");
    let mut p = core_inmem::parser_no_bind(&mut storage);
    let mut i = core_inmem::parse_text_with(&t, &mut p);
    #[cfg(bad)]
    let mut j = core_inmem::parse_text_with(&t, &mut p);
    take(i.next());
}
//# the core parser is dropped while its results are being iterated: E0505
fn f() {
    let mut storage = [Datum::EmptyList, Datum::EmptyList];
    let t = core_inmem::Text::from_str("{a b}");
    let mut p = core_inmem::parser_no_bind(&mut storage);
    let mut i = core_inmem::parse_text_with(&t, &mut p);
    #[cfg(bad)]
    drop(p);
    take(i.next());
}
//# the bindings outlived by the core parser: E0597
fn f() {
    let mut storage = [Datum::EmptyList, Datum::EmptyList];
    let t = core_inmem::Text::from_str("{a b}");
    #[cfg(not(bad))]
    let bs: [core_inmem::BindingsPair<'_, '_, '_>; 0] = [];
    let mut p;
    {
        #[cfg(bad)]
        let bs: [core_inmem::BindingsPair<'_, '_, '_>; 0] = [];
        p = core_inmem::parser(&mut storage, &bs);
    }
    take(core_inmem::parse_text_with(&t, &mut p).next());
}
//# two parse iterators of one parser: E0499
fn f() {
    let (t, u) = (inmem::Text::from_str("a"), inmem::Text::from_str("b"));
    let mut p = inmem::parser::<u8, u8>(Default::default());
    let mut i = p.parse(t.iter());
    #[cfg(bad)]
    let mut j = p.parse(u.iter());
    take(i.next());
}
//# the allocator is used while a parse iterator is alive: E0499
fn f() {
    let t = inmem::Text::from_str("a");
    let mut p = inmem::parser::<u8, u8>(Default::default());
    let mut i = p.parse(t.iter());
    #[cfg(bad)]
    take(p.allocator.new_datum(Datum::EmptyNest));
    take(i.next());
}
//# the bindings are changed while a parse iterator is alive: E0499
fn f() {
    let t = inmem::Text::from_str("a");
    let mut p = inmem::parser::<u8, u8>(Default::default());
    let mut i = p.parse(t.iter());
    #[cfg(bad)]
    p.bindings.hashmap.clear();
    take(i.next());
}
//# the parser is read while a parse iterator is alive: E0502
fn f() {
    let t = inmem::Text::from_str("a");
    let mut p = inmem::parser::<u8, u8>(Default::default());
    let mut i = p.parse(t.iter());
    #[cfg(bad)]
    take(&p.classifier);
    take(i.next());
}
//# the parser is moved while a parse iterator is alive: E0505
fn f() {
    let t = inmem::Text::from_str("a");
    let mut p = inmem::parser::<u8, u8>(Default::default());
    let mut i = p.parse(t.iter());
    #[cfg(bad)]
    drop(p);
    take(i.next());
}
//# a stream parser with two parse iterators: E0499
fn f() {
    let mut p = stream::parser::<u8, u8>(Default::default());
    let n = || StrishIterSourceStream::new(Some(Rc::new(String::from("a"))).into_iter());
    let mut i = p.parse(n());
    #[cfg(bad)]
    let mut j = p.parse(n());
    take(i.next());
}
//# a parse iterator outlives the text it reads: E0505 E0597
fn f() {
    let t = inmem::Text::from_str("a");
    let mut p = inmem::parser::<u8, u8>(Default::default());
    let mut i = p.parse(t.iter());
    #[cfg(bad)]
    drop(t);
    take(i.next());
}
//# a combiner outlives the map: E0505 E0597
fn f() {
    let b = inmem::OperatorBindings::<'_, u8, u8>::default();
    let c = b.lookup(&Datum::EmptyNest);
    #[cfg(bad)]
    drop(b);
    take(c);
}
//# a combiner outlives the pairs: E0505 E0597
fn f(b: core_inmem::OperatorBindings<'_, '_, '_, '_>) {
    let c = b.lookup(&Datum::EmptyNest);
    #[cfg(bad)]
    drop(b);
    take(c);
}
//# the map is changed while a combiner is referenced: E0502
fn f() {
    let mut b = inmem::OperatorBindings::<'_, u8, u8>::default();
    let c = b.lookup(&Datum::EmptyNest);
    #[cfg(bad)]
    b.hashmap.clear();
    take(c);
}
//# two mutable accesses to a counted datum: E0499
fn f(mut r: DatumRc<TS, u8>) {
    let a = DerefTryMut::get_mut(&mut r);
    #[cfg(bad)]
    let b = DerefTryMut::get_mut(&mut r);
    take(a);
}
//# two mutable accesses to an atomically counted datum: E0499
fn f(mut r: DatumArc<TS, u8>) {
    let a = DerefTryMut::get_mut(&mut r);
    #[cfg(bad)]
    let b = DerefTryMut::get_mut(&mut r);
    take(a);
}
//# two mutable accesses to a boxed datum: E0499
fn f(mut r: DatumBox<TS, u8>) {
    let a = DerefTryMut::get_mut(&mut r);
    #[cfg(bad)]
    let b = DerefTryMut::get_mut(&mut r);
    take(a);
}
//# two mutable accesses to a borrowed datum: E0499
fn f(mut r: DatumMutRef<'_, TL<'_>, u8>) {
    let a = DerefTryMut::get_mut(&mut r);
    #[cfg(bad)]
    let b = DerefTryMut::get_mut(&mut r);
    take(a);
}
//# a counted datum is cloned while it is being changed: E0502
fn f(mut r: DatumRc<TS, u8>) {
    let a = DerefTryMut::get_mut(&mut r);
    #[cfg(bad)]
    take(r.clone());
    take(a);
}
//# an atomically counted datum is cloned while it is being changed: E0502
fn f(mut r: DatumArc<TS, u8>) {
    let a = DerefTryMut::get_mut(&mut r);
    #[cfg(bad)]
    take(r.clone());
    take(a);
}
//# mutable access through a shared reference: E0596
#[cfg(bad)]
fn f(r: &DatumMutRef<'_, TL<'_>, u8>) {
    take(&mut *r.0);
}
#[cfg(not(bad))]
fn f(r: &mut DatumMutRef<'_, TL<'_>, u8>) {
    take(&mut *r.0);
}
//# direct mutable access to a counted datum: E0596
fn f(mut r: DatumRc<TS, u8>, mut b: DatumBox<TS, u8>) {
    #[cfg(bad)]
    take(&mut *r);
    take(&mut *b);
}
//# direct mutable access to an atomically counted datum: E0596
fn f(mut r: DatumArc<TS, u8>, mut b: DatumBox<TS, u8>) {
    #[cfg(bad)]
    take(&mut *r);
    take(&mut *b);
}
//# a datum reference outlives its box: E0505 E0597
fn f(r: DatumBox<TS, u8>) {
    let a = &*r;
    #[cfg(bad)]
    drop(r);
    take(a);
}
//# a datum reference outlives its count: E0505 E0597
fn f(r: DatumRc<TS, u8>) {
    let a = &*r;
    #[cfg(bad)]
    drop(r);
    take(a);
}
//# a borrowed reference is duplicated: E0277
fn f() {
    cloned::<DatumBox<TP<'_>, u8>>();
    #[cfg(bad)]
    cloned::<DatumMutRef<'_, TP<'_>, u8>>();
}
//# a borrowed datum is duplicated: E0277
fn f() {
    cloned::<BoxDatum<TP<'_>, u8>>();
    #[cfg(bad)]
    cloned::<MutRefDatum<'_, TP<'_>, u8>>();
}
//# a borrowed reference is copied: E0277 E0382
fn f(r: DatumMutRef<'_, TP<'_>, u8>) {
    let a = r;
    #[cfg(bad)]
    let b = r;
    take(a);
}
//# a text list is duplicated: E0277
fn f() {
    cloned::<TP<'_>>();
    #[cfg(bad)]
    cloned::<TL<'_>>();
}
//# the slice allocator is duplicated: E0277
fn f() {
    cloned::<TP<'_>>();
    #[cfg(bad)]
    cloned::<SliceDatumAllocator<'_, TP<'_>, u8>>();
}
//# the core parser is duplicated: E0277
fn f() {
    cloned::<TP<'_>>();
    #[cfg(bad)]
    cloned::<core_inmem::Parser<'_, '_, '_, '_>>();
}
//# a parse iterator is duplicated: E0277
fn f() {
    cloned::<TP<'_>>();
    #[cfg(bad)]
    cloned::<ParseIter<'_, Parser<DefaultCharClassifier, BoxDatumAllocator<TP<'_>, u8>, EmptyOperatorBindings>, kul::text::iter::Iter<'_, TP<'_>>>>();
}
//# a boxed reference is copied: E0277
fn f() {
    copied::<PosStr<'_>>();
    #[cfg(bad)]
    copied::<DatumBox<PosStr<'_>, u8>>();
}
//# a counted reference is copied: E0277
fn f() {
    copied::<PosStr<'_>>();
    #[cfg(bad)]
    copied::<DatumRc<PosStr<'_>, u8>>();
}
//# an atomically counted reference is copied: E0277
fn f() {
    copied::<PosStr<'_>>();
    #[cfg(bad)]
    copied::<DatumArc<PosStr<'_>, u8>>();
}
//# a counted datum is sent: E0277
fn f() {
    send::<DatumArc<TP<'_>, u8>>();
    #[cfg(bad)]
    send::<DatumRc<TP<'_>, u8>>();
}
//# a counted datum is shared: E0277
fn f() {
    sync::<DatumArc<TP<'_>, u8>>();
    #[cfg(bad)]
    sync::<DatumRc<TP<'_>, u8>>();
}
//# a datum of counted references is sent: E0277
fn f() {
    send::<ArcDatum<TP<'_>, u8>>();
    #[cfg(bad)]
    send::<RcDatum<TP<'_>, u8>>();
}
//# a datum of counted references is shared: E0277
fn f() {
    sync::<ArcDatum<TP<'_>, u8>>();
    #[cfg(bad)]
    sync::<RcDatum<TP<'_>, u8>>();
}
//# a weak reference to a counted datum is sent: E0277
fn f() {
    send::<std::sync::Weak<ArcDatum<TP<'_>, u8>>>();
    #[cfg(bad)]
    send::<std::rc::Weak<RcDatum<TP<'_>, u8>>>();
}
//# an atomically counted datum with content that is not shareable is sent: E0277
fn f() {
    send::<DatumBox<TP<'_>, Cell<u8>>>();
    #[cfg(bad)]
    send::<DatumArc<TP<'_>, Cell<u8>>>();
}
//# an atomically counted datum with content that is not sendable is shared: E0277
fn f() {
    sync::<DatumArc<TP<'_>, u8>>();
    #[cfg(bad)]
    sync::<DatumArc<TP<'_>, std::sync::MutexGuard<'_, u8>>>();
}
//# an atomically counted datum with counted text is sent: E0277
fn f() {
    send::<DatumArc<TA, u8>>();
    #[cfg(bad)]
    send::<DatumArc<TS, u8>>();
}
//# a boxed datum with counted text is sent: E0277
fn f() {
    send::<DatumBox<TA, u8>>();
    #[cfg(bad)]
    send::<DatumBox<TS, u8>>();
}
//# a boxed datum with content that is not shareable is shared: E0277
fn f() {
    sync::<DatumBox<TA, u8>>();
    #[cfg(bad)]
    sync::<DatumBox<TA, Cell<u8>>>();
}
//# a borrowed datum with content that is not shareable is shared: E0277
fn f() {
    sync::<DatumMutRef<'_, TP<'_>, u8>>();
    #[cfg(bad)]
    sync::<DatumMutRef<'_, TP<'_>, Cell<u8>>>();
}
//# a borrowed datum with counted text is sent: E0277
fn f() {
    send::<DatumMutRef<'_, TA, u8>>();
    #[cfg(bad)]
    send::<DatumMutRef<'_, TS, u8>>();
}
//# a slice allocator with counted content is sent: E0277
fn f() {
    send::<SliceDatumAllocator<'_, TA, u8>>();
    #[cfg(bad)]
    send::<SliceDatumAllocator<'_, TA, Rc<u8>>>();
}
//# a counted chunk of Rc<str> is sent: E0277
fn f() {
    send::<PosStrish<Arc<str>>>();
    #[cfg(bad)]
    send::<PosStrish<Rc<str>>>();
}
//# a counted chunk of Rc<String> is sent: E0277
fn f() {
    send::<PosStrish<Arc<String>>>();
    #[cfg(bad)]
    send::<PosStrish<Rc<String>>>();
}
//# a counted chunk of Rc<Box<str>> is shared: E0277
fn f() {
    sync::<PosStrish<Arc<Box<str>>>>();
    #[cfg(bad)]
    sync::<PosStrish<Rc<Box<str>>>>();
}
//# a counted chunk's stream is sent: E0277
fn f() {
    send::<PosStrishIter<Arc<str>>>();
    #[cfg(bad)]
    send::<PosStrishIter<Rc<str>>>();
}
//# a text of counted chunks is sent: E0277
fn f() {
    send::<TA>();
    #[cfg(bad)]
    send::<TS>();
}
//# a text list of counted chunks is sent: E0277
fn f() {
    send::<TextDatumList<'_, PosStrish<Arc<str>>, u8>>();
    #[cfg(bad)]
    send::<TextDatumList<'_, PosStrish<Rc<str>>, u8>>();
}
//# a source stream of counted chunks is sent: E0277
fn f() {
    send::<StrishIterSourceStream<std::vec::IntoIter<Arc<str>>, TA>>();
    #[cfg(bad)]
    send::<StrishIterSourceStream<std::vec::IntoIter<Rc<str>>, TS>>();
}
//# a result of stream parsing is sent: E0277
fn f() {
    send::<inmem::TopFormResult<'_>>();
    #[cfg(bad)]
    send::<stream::TopFormResult>();
}
//# a new kind of counted string: E0277 E0603 E0404 E0405
struct Mine(Rc<str>);
impl Clone for Mine {
    fn clone(&self) -> Self { Mine(self.0.clone()) }
}
#[cfg(bad)]
impl RefCntStrish for Mine {
    fn from_str(s: &str) -> Self { Mine(Rc::from(s)) }
}
//# a new kind of counted string with the characters by path: E0603 E0433 E0432 E0277 E0404 E0405
mod m {
    #[derive(Clone)]
    pub struct Mine(std::rc::Rc<str>);
    #[cfg(bad)]
    mod i {
        use kul::text::chunk::*;
        impl kul::text::chunk::as_str::AsStr for super::Mine {
            fn as_str(&self) -> &str { &self.0 }
        }
        impl RefCntStrish for super::Mine {
            fn from_str(s: &str) -> Self { super::Mine(s.into()) }
        }
    }
}
//# a new kind of counted string with the characters by name: E0603 E0433 E0432 E0277 E0404 E0405
mod m {
    #[derive(Clone)]
    pub struct Mine(std::rc::Rc<str>);
    #[cfg(bad)]
    mod i {
        use kul::text::chunk::*;
        impl AsStr for super::Mine {
            fn as_str(&self) -> &str { &self.0 }
        }
        impl RefCntStrish for super::Mine {
            fn from_str(s: &str) -> Self { super::Mine(s.into()) }
        }
    }
}
//# a new kind of counted string with the sealing by path: E0603 E0433 E0432 E0277 E0404 E0405
mod m {
    #[derive(Clone)]
    pub struct Mine(std::rc::Rc<str>);
    #[cfg(bad)]
    mod i {
        use kul::text::chunk::*;
        impl kul::text::chunk::seal_refcnt_strish::Sealed for super::Mine {}
        impl RefCntStrish for super::Mine {
            fn from_str(s: &str) -> Self { super::Mine(s.into()) }
        }
    }
}
//# a new kind of counted string with the sealing by path and the characters by path: E0603 E0433 E0432 E0277 E0404 E0405
mod m {
    #[derive(Clone)]
    pub struct Mine(std::rc::Rc<str>);
    #[cfg(bad)]
    mod i {
        use kul::text::chunk::*;
        impl kul::text::chunk::seal_refcnt_strish::Sealed for super::Mine {}
        impl kul::text::chunk::as_str::AsStr for super::Mine {
            fn as_str(&self) -> &str { &self.0 }
        }
        impl RefCntStrish for super::Mine {
            fn from_str(s: &str) -> Self { super::Mine(s.into()) }
        }
    }
}
//# a new kind of counted string with the sealing by path and the characters by name: E0603 E0433 E0432 E0277 E0404 E0405
mod m {
    #[derive(Clone)]
    pub struct Mine(std::rc::Rc<str>);
    #[cfg(bad)]
    mod i {
        use kul::text::chunk::*;
        impl kul::text::chunk::seal_refcnt_strish::Sealed for super::Mine {}
        impl AsStr for super::Mine {
            fn as_str(&self) -> &str { &self.0 }
        }
        impl RefCntStrish for super::Mine {
            fn from_str(s: &str) -> Self { super::Mine(s.into()) }
        }
    }
}
//# a new kind of counted string with the sealing by name: E0603 E0433 E0432 E0277 E0404 E0405
mod m {
    #[derive(Clone)]
    pub struct Mine(std::rc::Rc<str>);
    #[cfg(bad)]
    mod i {
        use kul::text::chunk::*;
        impl Sealed for super::Mine {}
        impl RefCntStrish for super::Mine {
            fn from_str(s: &str) -> Self { super::Mine(s.into()) }
        }
    }
}
//# a new kind of counted string with the sealing by name and the characters by path: E0603 E0433 E0432 E0277 E0404 E0405
mod m {
    #[derive(Clone)]
    pub struct Mine(std::rc::Rc<str>);
    #[cfg(bad)]
    mod i {
        use kul::text::chunk::*;
        impl Sealed for super::Mine {}
        impl kul::text::chunk::as_str::AsStr for super::Mine {
            fn as_str(&self) -> &str { &self.0 }
        }
        impl RefCntStrish for super::Mine {
            fn from_str(s: &str) -> Self { super::Mine(s.into()) }
        }
    }
}
//# a new kind of counted string with the sealing by name and the characters by name: E0603 E0433 E0432 E0277 E0404 E0405
mod m {
    #[derive(Clone)]
    pub struct Mine(std::rc::Rc<str>);
    #[cfg(bad)]
    mod i {
        use kul::text::chunk::*;
        impl Sealed for super::Mine {}
        impl AsStr for super::Mine {
            fn as_str(&self) -> &str { &self.0 }
        }
        impl RefCntStrish for super::Mine {
            fn from_str(s: &str) -> Self { super::Mine(s.into()) }
        }
    }
}
//# the streams accept any string: E0277 E0599
fn f() {
    take(PosStrish::new(Rc::<str>::from("a"), CharPos(0)));
    #[cfg(bad)]
    take(PosStrish::new(String::from("a"), CharPos(0)));
}
//# the atomically counted datum is usable across threads: ok
fn f() {
    both::<DatumArc<TP<'_>, u8>>();
    both::<DatumArc<TA, u8>>();
    both::<ArcDatum<TA, u8>>();
    both::<DatumArc<TA, Arc<str>>>();
    both::<std::sync::Weak<ArcDatum<TA, u8>>>();
}
//# the boxed datum is usable across threads: ok
fn f() {
    both::<DatumBox<TP<'_>, u8>>();
    both::<DatumBox<TA, u8>>();
    both::<BoxDatum<TA, u8>>();
    send::<DatumBox<TA, Cell<u8>>>();
}
//# the borrowed datum is usable across threads: ok
fn f() {
    both::<DatumMutRef<'_, TP<'_>, u8>>();
    both::<MutRefDatum<'_, TL<'_>, u8>>();
    send::<DatumMutRef<'_, TA, Cell<u8>>>();
    both::<SliceDatumAllocator<'_, TP<'_>, u8>>();
    both::<SliceDatumAllocator<'_, TL<'_>, u8>>();
    send::<SliceDatumAllocator<'_, TA, Cell<u8>>>();
}
//# the atomically counted chunks are usable across threads: ok
fn f() {
    both::<PosStrish<Arc<str>>>();
    both::<PosStrish<Arc<String>>>();
    both::<PosStrish<Arc<Box<str>>>>();
    both::<PosStrishIter<Arc<str>>>();
    both::<PosStrishIter<Arc<String>>>();
    both::<PosStrishIter<Arc<Box<str>>>>();
    both::<TA>();
    both::<StrishIterSourceStream<std::vec::IntoIter<Arc<str>>, TA>>();
}
//# the borrowed chunks are usable across threads: ok
fn f() {
    both::<PosStr<'_>>();
    both::<StrPos<'_>>();
    both::<PosStrIter<'_>>();
    both::<TP<'_>>();
    both::<TL<'_>>();
    both::<kul::text::iter::Iter<'_, TP<'_>>>();
    both::<kul::text::iter::Iter<'_, TL<'_>>>();
    both::<CharPos>();
    both::<DefaultCharClassifier>();
    both::<EmptyOperatorBindings>();
    both::<Error<StrPos<'_>, u8>>();
    both::<Error<CharPos, u8>>();
    both::<AllocError>();
    both::<inmem::TopFormResult<'_>>();
    both::<core_inmem::TopFormResult<'_, '_, '_, '_>>();
}
//# a datum is sent to another thread and shared with it: ok
fn f<'a>(d: DatumArc<TA, u8>, b: DatumBox<TA, u8>, s: &'a mut [MutRefDatum<'a, TA, u8>]) {
    let e = d.clone();
    std::thread::spawn(move || take((e, b)));
    std::thread::scope(|t| {
        let mut a = SliceDatumAllocator::new(s);
        t.spawn(|| take(&d));
        t.spawn(move || take(a.new_datum(Datum::EmptyNest)));
    });
}
