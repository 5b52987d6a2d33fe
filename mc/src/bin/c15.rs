//! C15: serialization of all states and deserialization of all bounded documents.
//!
//! Documents are trees of lists with numbers and wrong leaves. They are read through JSON and
//! through a deserializer that reports every kind of length hint, into every target shape type,
//! and compared with a reference parser. Arrays of all states are written to JSON and to a token
//! stream that can fail at every token.

#[cfg(not(feature = "serde"))]
fn main() {}

#[cfg(feature = "serde")]
fn main() {
    with_serde::main()
}

#[cfg(feature = "serde")]
mod with_serde {
    use std::fmt::{self, Display};

    use mc::engine::{self, Check, Ctx, Worker, attempt_msg};
    use mc::model::{Lay, Sem, St, all_dims, few_permutations, large_states, make, make_mut, product, strided_from};
    use mc::types::{self, Visitor};
    use mc::{ensure, ensure_eq};
    use mdarray::{Array, Const, Dense, Dyn, Layout, Rank, Shape, Slice, Strided, Tensor};
    use serde::de::{self, DeserializeSeed, SeqAccess};
    use serde::ser::{self, Impossible, SerializeSeq};
    use serde::{Deserialize, Deserializer, Serialize, Serializer};

    // ------------------------------------------------------------------ documents

    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    enum Doc {
        Num(u8),
        Bad,
        List(Vec<Doc>),
    }

    impl Doc {
        /// JSON text.
        fn text(&self, out: &mut String) {
            match self {
                Doc::Num(x) => out.push_str(&x.to_string()),
                Doc::Bad => out.push_str("null"),
                Doc::List(v) => {
                    out.push('[');
                    for (i, x) in v.iter().enumerate() {
                        if i > 0 {
                            out.push(',');
                        }
                        x.text(out);
                    }
                    out.push(']');
                }
            }
        }

        fn json(&self) -> String {
            let mut s = String::new();
            self.text(&mut s);
            s
        }

        /// Give the numbers different values.
        fn number(&mut self, next: &mut u8) {
            match self {
                Doc::Num(x) => {
                    *x = *next;
                    *next = next.wrapping_add(1);
                }
                Doc::Bad => (),
                Doc::List(v) => v.iter_mut().for_each(|x| x.number(next)),
            }
        }
    }

    /// All documents of at most the given depth and width.
    fn documents(depth: usize, width: usize, bad: bool) -> Vec<Doc> {
        let mut all = vec![Doc::Num(0)];
        if bad {
            all.push(Doc::Bad);
        }
        if depth > 0 {
            let inner = documents(depth - 1, width, bad);
            let mut lists: Vec<Vec<Doc>> = vec![vec![]];
            let mut last = lists.clone();
            for _ in 0..width {
                let mut next = vec![];
                for l in &last {
                    for x in &inner {
                        let mut l = l.clone();
                        l.push(x.clone());
                        next.push(l);
                    }
                }
                lists.extend(next.iter().cloned());
                last = next;
            }
            all.extend(lists.into_iter().map(Doc::List));
        }
        all
    }

    /// The document of an array with these dimensions.
    fn regular(dims: &[usize]) -> Doc {
        match dims.split_first() {
            None => Doc::Num(0),
            Some((&n, inner)) => Doc::List(vec![regular(inner); n]),
        }
    }

    /// All documents with one deviation: a list that is shorter, longer, empty or a number, or a wrong leaf.
    fn deviations(doc: &Doc) -> Vec<Doc> {
        let Doc::List(v) = doc else { return vec![Doc::Bad, Doc::List(vec![])] };
        let mut all = vec![Doc::Num(0), Doc::List(vec![])];
        if let Some(x) = v.last() {
            all.push(Doc::List(v[1..].to_vec()));
            all.push(Doc::List([&v[..], &[x.clone()]].concat()));
        }
        for (i, x) in v.iter().enumerate() {
            for y in deviations(x) {
                let mut v = v.clone();
                v[i] = y;
                all.push(Doc::List(v));
            }
        }
        all
    }

    type Sizes = Vec<Option<usize>>;

    /// Reference parser: known dimensions (`None` if the data cannot tell) and elements.
    fn parse(doc: &Doc, sizes: &[Option<usize>], out: &mut Vec<u8>) -> Result<Sizes, ()> {
        match (doc, sizes.split_first()) {
            (Doc::Num(x), None) => {
                out.push(*x);
                Ok(vec![])
            }
            (Doc::List(v), Some((head, tail))) => {
                if head.is_some_and(|n| n != v.len()) {
                    return Err(());
                }
                let mut dims: Sizes = tail.to_vec();
                for (i, x) in v.iter().enumerate() {
                    let d = parse(x, tail, out)?;
                    if i > 0 && d != dims {
                        return Err(());
                    }
                    dims = d;
                }
                dims.insert(0, Some(v.len()));
                Ok(dims)
            }
            _ => Err(()),
        }
    }

    // ------------------------------------------------------------------ reading with length hints

    #[derive(Debug)]
    struct Fail(String);

    impl Display for Fail {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str(&self.0)
        }
    }

    impl std::error::Error for Fail {}

    impl de::Error for Fail {
        fn custom<T: Display>(msg: T) -> Self {
            Fail(msg.to_string())
        }
    }

    impl ser::Error for Fail {
        fn custom<T: Display>(msg: T) -> Self {
            Fail(msg.to_string())
        }
    }

    /// What the format says about the length of a sequence.
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    enum Hint {
        None,
        Exact,
        Zero,
        More,
        Huge,
        Max,
    }

    const HINTS: [Hint; 6] = [Hint::None, Hint::Exact, Hint::Zero, Hint::More, Hint::Huge, Hint::Max];

    impl Hint {
        fn of(self, n: usize) -> Option<usize> {
            match self {
                Hint::None => None,
                Hint::Exact => Some(n),
                Hint::Zero => Some(0),
                Hint::More => Some(n + 3),
                Hint::Huge => Some(1 << 61),
                Hint::Max => Some(usize::MAX),
            }
        }
    }

    struct Reader<'a> {
        doc: &'a Doc,
        hint: Hint,
    }

    impl<'a> Deserializer<'a> for Reader<'a> {
        type Error = Fail;

        fn deserialize_any<V: de::Visitor<'a>>(self, visitor: V) -> Result<V::Value, Fail> {
            match self.doc {
                Doc::Num(x) => visitor.visit_u8(*x),
                Doc::Bad => visitor.visit_unit(),
                Doc::List(v) => visitor.visit_seq(Items { list: v, at: 0, hint: self.hint }),
            }
        }

        serde::forward_to_deserialize_any! {
            <W: Visitor<'a>>
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
            unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
        }
    }

    struct Items<'a> {
        list: &'a [Doc],
        at: usize,
        hint: Hint,
    }

    impl<'a> SeqAccess<'a> for Items<'a> {
        type Error = Fail;

        fn next_element_seed<T: DeserializeSeed<'a>>(&mut self, seed: T) -> Result<Option<T::Value>, Fail> {
            if self.at == self.list.len() {
                return Ok(None);
            }
            self.at += 1;
            seed.deserialize(Reader { doc: &self.list[self.at - 1], hint: self.hint }).map(Some)
        }

        fn size_hint(&self) -> Option<usize> {
            self.hint.of(self.list.len() - self.at)
        }
    }

    // ------------------------------------------------------------------ targets

    /// Result of deserialization: dimensions and elements, or an error.
    type Read = Result<(Vec<usize>, Vec<u8>), String>;

    fn elements<S: Shape, L: Layout>(x: &Slice<u8, S, L>) -> (Vec<usize>, Vec<u8>) {
        let dims: Vec<usize> = (0..x.rank()).map(|i| x.dim(i)).collect();
        let items = mc::model::indices(&dims).iter().map(|i| x[&i[..]]).collect();
        (dims, items)
    }

    struct Target {
        name: String,
        sizes: Sizes,
        json: fn(&str) -> Read,
        hinted: fn(&Doc, Hint) -> Read,
    }

    trait Size {
        const SIZE: Option<usize>;
    }

    impl Size for Dyn {
        const SIZE: Option<usize> = None;
    }

    impl<const N: usize> Size for Const<N> {
        const SIZE: Option<usize> = Some(N);
    }

    fn read<'a, T: Deserialize<'a>, R: Deserializer<'a>>(r: R, f: fn(&T) -> (Vec<usize>, Vec<u8>)) -> Read
    where
        R::Error: Display,
    {
        T::deserialize(r).map(|x| f(&x)).map_err(|e| e.to_string())
    }

    fn json_of<T: for<'a> Deserialize<'a>>(s: &str, f: fn(&T) -> (Vec<usize>, Vec<u8>)) -> Read {
        serde_json::from_str::<T>(s).map(|x| f(&x)).map_err(|e| e.to_string())
    }

    type C<const N: usize> = Const<N>;

    fn targets() -> Vec<Target> {
        let mut v = vec![];
        macro_rules! tensor {
            ($(($($d:ty),*))*) => { $(
                v.push(Target {
                    name: concat!("Tensor<", stringify!(($($d),*)), ">").into(),
                    sizes: vec![$(<$d as Size>::SIZE),*],
                    json: |s| json_of::<Tensor<u8, ($($d,)*)>>(s, |x| elements(x)),
                    hinted: |d, hint| read::<Tensor<u8, ($($d,)*)>, _>(Reader { doc: d, hint }, |x| elements(x)),
                });
            )* };
        }
        macro_rules! array {
            ($(($($d:ty),*))*) => { $(
                v.push(Target {
                    name: concat!("Array<", stringify!(($($d),*)), ">").into(),
                    sizes: vec![$(<$d as Size>::SIZE),*],
                    json: |s| json_of::<Array<u8, ($($d,)*)>>(s, |x| elements(x)),
                    hinted: |d, hint| read::<Array<u8, ($($d,)*)>, _>(Reader { doc: d, hint }, |x| elements(x)),
                });
            )* };
        }
        tensor! {
            () (Dyn) (C<0>) (C<1>) (C<2>) (C<3>)
            (Dyn, Dyn) (Dyn, C<0>) (Dyn, C<1>) (Dyn, C<2>) (C<0>, Dyn) (C<1>, Dyn) (C<2>, Dyn)
            (C<2>, C<2>) (C<2>, C<0>) (C<0>, C<2>) (C<1>, C<2>) (C<2>, C<3>)
            (Dyn, Dyn, Dyn) (C<2>, Dyn, Dyn) (Dyn, C<2>, Dyn) (Dyn, Dyn, C<2>) (C<2>, C<1>, Dyn) (Dyn, C<1>, C<2>)
            (C<2>, C<2>, C<2>) (C<2>, C<0>, C<1>) (C<1>, Dyn, C<2>)
            (Dyn, Dyn, Dyn, Dyn) (C<1>, Dyn, C<2>, Dyn) (Dyn, C<2>, Dyn, C<1>) (C<1>, C<2>, C<2>, C<1>)
        }
        array! {
            () (C<0>) (C<1>) (C<2>) (C<3>)
            (C<2>, C<2>) (C<2>, C<0>) (C<0>, C<2>) (C<1>, C<2>) (C<2>, C<1>) (C<2>, C<3>)
            (C<2>, C<2>, C<2>) (C<2>, C<0>, C<1>) (C<2>, C<1>, C<2>) (C<1>, C<2>, C<2>, C<1>)
        }
        v
    }

    fn judge(w: &mut Worker, what: &str, doc: &Doc, sizes: &[Option<usize>], read: Result<Read, String>) -> Check {
        w.step();
        let read = match read {
            Ok(r) => r,
            Err(msg) => return Err(format!("{what}: panics: {msg}")),
        };
        let mut items = vec![];
        match (parse(doc, sizes, &mut items), read) {
            (Ok(known), Ok((dims, got))) => {
                let fits = dims.len() == known.len() && dims.iter().zip(&known).all(|(d, k)| k.is_none_or(|k| k == *d));
                ensure!(fits, "{what}: dimensions {dims:?}, expected {known:?}");
                ensure_eq!(got, items, "{what}: elements");
                w.count("accepted");
            }
            (Err(()), Err(_)) => w.count("rejected"),
            (Ok(known), Err(e)) => return Err(format!("{what}: error {e}, expected dimensions {known:?}")),
            (Err(()), Ok(x)) => return Err(format!("{what}: accepted as {x:?}")),
        }
        w.trace();
        Ok(())
    }

    // ------------------------------------------------------------------ writing

    #[derive(Clone, Debug, PartialEq, Eq)]
    enum Token {
        Seq(Option<usize>),
        Num(u64),
        End,
    }

    /// Serializer to tokens that fails at a given token.
    struct Writer<'a> {
        out: &'a mut Vec<Token>,
        fail: usize,
    }

    impl Writer<'_> {
        fn put(&mut self, t: Token) -> Result<(), Fail> {
            if self.out.len() == self.fail {
                return Err(Fail("full".into()));
            }
            self.out.push(t);
            Ok(())
        }
    }

    macro_rules! no {
        ($($f:ident($($t:ty),*)),*) => {
            $(fn $f(self $(, _: $t)*) -> Result<(), Fail> { Err(Fail(stringify!($f).into())) })*
        };
    }

    impl<'a> Serializer for Writer<'a> {
        type Ok = ();
        type Error = Fail;
        type SerializeSeq = Self;
        type SerializeTuple = Impossible<(), Fail>;
        type SerializeTupleStruct = Impossible<(), Fail>;
        type SerializeTupleVariant = Impossible<(), Fail>;
        type SerializeMap = Impossible<(), Fail>;
        type SerializeStruct = Impossible<(), Fail>;
        type SerializeStructVariant = Impossible<(), Fail>;

        fn serialize_u32(mut self, x: u32) -> Result<(), Fail> {
            self.put(Token::Num(x as u64))
        }

        fn serialize_seq(mut self, len: Option<usize>) -> Result<Self, Fail> {
            self.put(Token::Seq(len))?;
            Ok(self)
        }

        no! {
            serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64),
            serialize_u8(u8), serialize_u16(u16), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64),
            serialize_char(char), serialize_str(&str), serialize_bytes(&[u8]), serialize_none(), serialize_unit(),
            serialize_unit_struct(&'static str), serialize_unit_variant(&'static str, u32, &'static str)
        }

        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Fail> {
            Err(Fail("some".into()))
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), Fail> {
            Err(Fail("newtype".into()))
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: &T,
        ) -> Result<(), Fail> {
            Err(Fail("variant".into()))
        }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Fail> {
            Err(Fail("tuple".into()))
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Fail> {
            Err(Fail("tuple struct".into()))
        }
        fn serialize_tuple_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeTupleVariant, Fail> {
            Err(Fail("tuple variant".into()))
        }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Fail> {
            Err(Fail("map".into()))
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fail> {
            Err(Fail("struct".into()))
        }
        fn serialize_struct_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeStructVariant, Fail> {
            Err(Fail("struct variant".into()))
        }
    }

    impl SerializeSeq for Writer<'_> {
        type Ok = ();
        type Error = Fail;

        fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Fail> {
            value.serialize(Writer { out: self.out, fail: self.fail })
        }

        fn end(mut self) -> Result<(), Fail> {
            self.put(Token::End)
        }
    }

    /// Expected tokens and text.
    fn expected(sem: &Sem, dims: &[usize], at: &mut usize, tokens: &mut Vec<Token>, text: &mut String) {
        match dims.split_first() {
            None => {
                tokens.push(Token::Num(sem.ids[*at] as u64));
                text.push_str(&sem.ids[*at].to_string());
                *at += 1;
            }
            Some((&n, tail)) => {
                tokens.push(Token::Seq(Some(n)));
                text.push('[');
                for i in 0..n {
                    if i > 0 {
                        text.push(',');
                    }
                    expected(sem, tail, at, tokens, text);
                }
                tokens.push(Token::End);
                text.push(']');
            }
        }
    }

    /// Whether every sequence length is known: formats may need it, but a length is optional.
    fn same(got: &[Token], want: &[Token]) -> bool {
        got.len() == want.len()
            && got.iter().zip(want).all(|(g, w)| match (g, w) {
                (Token::Seq(None), Token::Seq(_)) => true,
                _ => g == w,
            })
    }

    struct Write<'a, 'b> {
        w: &'a mut Worker<'b>,
        st: &'a St,
    }

    fn write_check<T: Serialize + ?Sized>(w: &mut Worker, what: &str, x: &T, sem: &Sem) -> Check {
        let (mut tokens, mut text) = (vec![], String::new());
        expected(sem, &sem.dims, &mut 0, &mut tokens, &mut text);
        w.step();
        let got = serde_json::to_string(x).map_err(|e| format!("{what}: error {e}"))?;
        ensure_eq!(got, text, "{what}: JSON");
        // The writer may fail at every token: the error is passed on.
        for fail in 0..=tokens.len() {
            let mut out = vec![];
            let r = x.serialize(Writer { out: &mut out, fail });
            w.step();
            ensure!(same(&out, &tokens[..fail]), "{what}: wrote {out:?}, expected {:?}", &tokens[..fail]);
            ensure_eq!(r.is_err(), fail < tokens.len(), "{what}: failure at token {fail} of {} is reported", tokens.len());
            if fail < tokens.len() {
                w.count("write_failures");
            }
        }
        w.trace();
        w.outcome(&text);
        Ok(())
    }

    fn back<S: Shape>(w: &mut Worker, x: &Tensor<u32, S>, text: &str) -> Check {
        let dims: Vec<usize> = (0..x.rank()).map(|i| x.dim(i)).collect();
        // The shape can be told from the data unless a dynamic dimension follows an empty one.
        let first = dims.iter().position(|&d| d == 0).unwrap_or(dims.len());
        let statics = constant::<S>(dims.len());
        let told = (first + 1..dims.len()).all(|i| statics[i]);
        let y: Result<Tensor<u32, S>, _> = serde_json::from_str(text);
        w.step();
        let y = y.map_err(|e| format!("reading {text} back gives error {e}"))?;
        if told {
            ensure!(y == *x, "reading {text} back gives {y:?} with dimensions {:?}", y.shape());
            w.count("round_trips");
        }
        w.trace();
        Ok(())
    }

    /// Which dimensions of the shape type are constant.
    fn constant<S: Shape>(rank: usize) -> Vec<bool> {
        fn collect<S: Shape>(rank: usize, out: &mut Vec<bool>) {
            if rank > 0 {
                out.push(<S::Head as mdarray::Dim>::SIZE.is_some());
                collect::<S::Tail>(rank - 1, out);
            }
        }
        let mut v = vec![];
        collect::<S>(rank, &mut v);
        v
    }

    impl Visitor for Write<'_, '_> {
        fn visit<S: Shape + 'static, L: Lay>(&mut self, name: &'static str) {
            if S::RANK.is_none() {
                return;
            }
            let st = self.st;
            let sem = st.sem();
            self.w.case(
                || format!("write {} as {name} {}", st.name(), if L::IS_DENSE { "dense" } else { "strided" }),
                |w| {
                    let mut buf = st.buffer();
                    let v = make::<u32, S, L>(st, &buf);
                    write_check(w, "view", &v, &sem)?;
                    write_check(w, "slice", &*v, &sem)?;
                    let t = v.to_tensor();
                    write_check(w, "tensor", &t, &sem)?;
                    write_check(w, "reference", &&t, &sem)?;
                    let text = serde_json::to_string(&t).unwrap();
                    if st.dims.len() <= 4 {
                        back(w, &t, &text)?;
                    }
                    let v = make_mut::<u32, S, L>(st, &mut buf);
                    write_check(w, "mutable view", &v, &sem)
                },
            );
        }
    }

    fn arrays(w: &mut Worker) {
        macro_rules! one {
            ($(($($n:literal),*))*) => { $(
                w.case(|| stringify!(Array<$($n),*>).into(), |w| {
                    type A = Array<u32, ($(Const<$n>,)*)>;
                    let dims: Vec<usize> = vec![$($n),*];
                    let sem = Sem::iota(&dims);
                    let x = A::from_fn(|i| { let i: &[usize] = i.as_ref(); sem.at(i) });
                    write_check(w, "array", &x, &sem)?;
                    let text = serde_json::to_string(&x).unwrap();
                    let y: A = serde_json::from_str(&text).map_err(|e| format!("{text}: {e}"))?;
                    ensure!(x == y, "array {text} comes back as {y:?}");
                    w.trace();
                    // Arrays as elements.
                    let nested: Tensor<A, Rank<1>> = Tensor::from(vec![x.clone(), y]);
                    let text = serde_json::to_string(&nested).unwrap();
                    let z: Tensor<A, Rank<1>> = serde_json::from_str(&text).map_err(|e| format!("{text}: {e}"))?;
                    ensure!(z == nested, "nested {text} comes back as {z:?}");
                    w.step();
                    Ok(())
                });
            )* };
        }
        one! { () (0) (1) (3) (2, 3) (0, 2) (2, 0) (1, 1) (2, 1, 2) (2, 0, 2) (2, 2, 2, 1) (1, 2, 1, 2, 1) (1, 1, 2, 1, 1, 2) }
    }

    fn check(ctx: &Ctx) {
        let t = ctx.thorough;

        // Reading.
        let targets = targets();
        let mut docs: Vec<Doc> = documents(2, 3, true);
        docs.extend(documents(3, 2, true));
        if t {
            docs.extend(documents(4, 2, false));
            docs.extend(documents(2, 4, true));
        } else {
            // Depth 4: all documents of lists with one or two equal parts or one deviation.
            for d in documents(3, 2, false) {
                docs.push(Doc::List(vec![d.clone()]));
                docs.push(Doc::List(vec![d.clone(), d]));
            }
        }
        for d in [&[17][..], &[40], &[9, 12], &[12, 9], &[33, 2], &[2, 33], &[2, 3, 9], &[9, 2, 3], &[3, 4, 2, 5]] {
            let doc = regular(d);
            docs.extend(deviations(&doc));
            docs.push(doc);
        }
        // More elements than are allocated in advance.
        docs.extend([regular(&[5000]), regular(&[2, 4100]), regular(&[4100, 2])]);
        ctx.bound("large documents", "regular documents of 9 shapes with 17 to 120 elements, with every single deviation (a list that is shorter, longer, empty or a number, a wrong leaf); regular ones of 5000 and 8200 elements");
        docs.sort_by_key(|d| d.json().len());
        let mut seen = std::collections::HashSet::new();
        docs.retain(|d| seen.insert(d.clone()));
        for d in &mut docs {
            d.number(&mut 1);
        }
        ctx.bound(
            "documents",
            if t {
                "all trees of numbers and wrong leaves with depth 2 and width 3 or 4, depth 3 and width 2; of numbers with depth 4 and width 2"
            } else {
                "all trees of numbers and wrong leaves with depth 2 and width 3, depth 3 and width 2; of numbers with depth 4 and one or two equal parts"
            },
        );
        ctx.bound("targets", format!("{} shape types of tensors and arrays with rank 0-4", targets.len()));
        ctx.bound("formats", "JSON, and a self-describing format with 6 kinds of length hint (none, exact, too small, too large)");
        let cut = if t { 30 } else { 15 };
        ctx.bound("truncation", format!("every proper prefix of JSON text of at most {cut} bytes"));
        let groups: Vec<&[Doc]> = docs.chunks(64).collect();
        ctx.par(&groups, |w, docs| {
            for doc in docs.iter() {
                w.state();
                let text = doc.json();
                for t in &targets {
                    w.case(
                        || format!("read {text} as {}", t.name),
                        |w| {
                            let r = attempt_msg(|| (t.json)(&text));
                            judge(w, "JSON", doc, &t.sizes, r)?;
                            for hint in HINTS {
                                let r = attempt_msg(|| (t.hinted)(doc, hint));
                                judge(w, hint_name(hint), doc, &t.sizes, r)?;
                            }
                            // Cut off at every byte.
                            if text.len() <= cut && text.starts_with('[') {
                                for n in 0..text.len() {
                                    w.step();
                                    let r = attempt_msg(|| (t.json)(&text[..n]));
                                    let r = r.map_err(|e| format!("cut off after {n} bytes: panics: {e}"))?;
                                    ensure!(r.is_err(), "cut off after {n} bytes: accepted as {r:?}");
                                    w.count("truncated");
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        });

        // Writing.
        let mut jobs: Vec<St> = vec![];
        for rank in 0..=if t { 5 } else { 4 } {
            let all = all_dims(rank, if rank < 3 { 4 } else { 3 });
            jobs.extend(all.iter().map(|d| St::dense(d)));
            jobs.extend(strided_from(rank, &all, if rank < 4 { &[1, -1, 2] } else { &[1, -1] }, &[0, 1], &few_permutations(rank)));
        }
        jobs.extend((1..=4).flat_map(large_states));
        ctx.bound("written arrays", "17 to 130 elements in some shapes; ranks 0-4 with sizes 0..3 (0..2 for ranks 3, 4), dense and strided with permutations and steps 1, -1, 2; a failure at every token");
        ctx.par(&jobs, |w, st| {
            if product(&st.dims) > 130 {
                return;
            }
            w.state();
            if st.dense {
                types::each::<Dense>(&st.dims, &mut Write { w, st });
            }
            types::each::<Strided>(&st.dims, &mut Write { w, st });
        });
        ctx.one(arrays);
    }

    fn hint_name(h: Hint) -> &'static str {
        match h {
            Hint::None => "no length",
            Hint::Exact => "exact length",
            Hint::Zero => "length hint 0",
            Hint::More => "length hint too large",
            Hint::Huge => "length hint 2^61",
            Hint::Max => "length hint usize::MAX",
        }
    }

    pub fn main() {
        engine::main(check)
    }
}
