//! A stand-in for the `chumsky` revision that aftermath-editor pins (a git dependency, which is not
//! available offline). It implements the part of the chumsky 1.0.0-alpha API that the repository uses, with
//! chumsky's documented PEG semantics: ordered choice, greedy `repeated`, `rewind` on failed
//! alternatives, `check` mode that does not build output, and top level parses that must consume
//! everything. Error values are reduced to their span, because the repository only prints them.
#![allow(clippy::all)]

use std::marker::PhantomData;
use std::rc::Rc;

use error::Error;
use extra::ParserExtra;
use input::{Input, InputRef};

type Phantom<T> = PhantomData<fn() -> T>;

/// Counts how often a token of the input is looked at, a machine-independent measure of parsing time.
/// Going beyond the limit panics, so that runaway parses end.
pub mod stats {
    use std::cell::Cell;
    thread_local! {
        static STEPS: Cell<u64> = const { Cell::new(0) };
        static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    }
    pub const LIMIT_MESSAGE: &str = "parse step limit reached";
    #[inline]
    pub(crate) fn tick() {
        STEPS.with(|s| {
            let n = s.get() + 1;
            s.set(n);
            if n > LIMIT.with(|l| l.get()) {
                panic!("{}", LIMIT_MESSAGE);
            }
        })
    }
    /// Starts counting from zero, up to a limit.
    pub fn start(limit: u64) {
        STEPS.with(|s| s.set(0));
        LIMIT.with(|l| l.set(limit));
    }
    pub fn steps() -> u64 {
        STEPS.with(|s| s.get())
    }
}

pub mod span {
    /// A simple start..end span.
    #[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct SimpleSpan<T = usize, C = ()> {
        pub start: T,
        pub end: T,
        pub context: C,
    }
    impl<T: std::fmt::Debug, C> std::fmt::Debug for SimpleSpan<T, C> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?}..{:?}", self.start, self.end)
        }
    }
    impl<T: std::fmt::Display, C> std::fmt::Display for SimpleSpan<T, C> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}..{}", self.start, self.end)
        }
    }
    impl<T> SimpleSpan<T> {
        pub fn new(start: T, end: T) -> Self {
            SimpleSpan { start, end, context: () }
        }
        pub fn into_range(self) -> std::ops::Range<T> {
            self.start..self.end
        }
    }
    impl<T> From<std::ops::Range<T>> for SimpleSpan<T> {
        fn from(r: std::ops::Range<T>) -> Self {
            SimpleSpan { start: r.start, end: r.end, context: () }
        }
    }
    impl<T> From<SimpleSpan<T>> for std::ops::Range<T> {
        fn from(s: SimpleSpan<T>) -> Self {
            s.start..s.end
        }
    }
    pub trait Span {
        type Offset: Clone;
        fn start(&self) -> Self::Offset;
        fn end(&self) -> Self::Offset;
    }
    impl<T: Clone, C> Span for SimpleSpan<T, C> {
        type Offset = T;
        fn start(&self) -> T {
            self.start.clone()
        }
        fn end(&self) -> T {
            self.end.clone()
        }
    }
}

pub mod util {
    /// Either a borrowed or an owned value.
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum Maybe<T, R> {
        Ref(R),
        Val(T),
    }
    pub type MaybeRef<'a, T> = Maybe<T, &'a T>;
    impl<'a, T> Maybe<T, &'a T> {
        pub fn into_inner(self) -> T
        where
            T: Clone,
        {
            match self {
                Maybe::Ref(r) => r.clone(),
                Maybe::Val(v) => v,
            }
        }
    }
    impl<'a, T> std::ops::Deref for Maybe<T, &'a T> {
        type Target = T;
        fn deref(&self) -> &T {
            match self {
                Maybe::Ref(r) => r,
                Maybe::Val(v) => v,
            }
        }
    }
    impl<'a, T> From<T> for Maybe<T, &'a T> {
        fn from(v: T) -> Self {
            Maybe::Val(v)
        }
    }
    impl<'a, T> From<&'a T> for Maybe<T, &'a T> {
        fn from(v: &'a T) -> Self {
            Maybe::Ref(v)
        }
    }
}

pub mod error {
    use super::*;
    pub trait Error<'a, I: Input<'a>>: Sized {
        fn expected_found<E: IntoIterator<Item = Option<util::MaybeRef<'a, I::Token>>>>(
            expected: E,
            found: Option<util::MaybeRef<'a, I::Token>>,
            span: I::Span,
        ) -> Self;
        fn merge(self, _other: Self) -> Self {
            self
        }
    }
    #[derive(Debug, Clone, Copy, Default, PartialEq, Eq)]
    pub struct EmptyErr(());
    impl<'a, I: Input<'a>> Error<'a, I> for EmptyErr {
        fn expected_found<E: IntoIterator<Item = Option<util::MaybeRef<'a, I::Token>>>>(
            _: E,
            _: Option<util::MaybeRef<'a, I::Token>>,
            _: I::Span,
        ) -> Self {
            EmptyErr(())
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Cheap<S = span::SimpleSpan<usize>> {
        pub span: S,
    }
    impl<'a, I: Input<'a>> Error<'a, I> for Cheap<I::Span> {
        fn expected_found<E: IntoIterator<Item = Option<util::MaybeRef<'a, I::Token>>>>(
            _: E,
            _: Option<util::MaybeRef<'a, I::Token>>,
            span: I::Span,
        ) -> Self {
            Cheap { span }
        }
    }
}

pub mod extra {
    use super::*;
    pub trait ParserExtra<'a, I: Input<'a>>: 'a {
        type Error: Error<'a, I> + 'a;
        type State: 'a;
        type Context: 'a;
    }
    pub struct Full<E, S, C>(PhantomData<(E, S, C)>);
    impl<'a, I: Input<'a>, E: Error<'a, I> + 'a, S: 'a, C: 'a> ParserExtra<'a, I> for Full<E, S, C> {
        type Error = E;
        type State = S;
        type Context = C;
    }
    pub type Default = Full<error::EmptyErr, (), ()>;
    pub type Err<E> = Full<E, (), ()>;
}

pub mod input {
    use super::*;

    pub trait Input<'a>: 'a {
        type Token;
        type Span;
        #[doc(hidden)]
        fn token_at(&self, i: usize) -> Option<&'a Self::Token>;
        #[doc(hidden)]
        fn make_span(&self, start: usize, end: usize) -> Self::Span;
    }
    impl<'a, T: 'a> Input<'a> for &'a [T] {
        type Token = T;
        type Span = span::SimpleSpan<usize>;
        fn token_at(&self, i: usize) -> Option<&'a T> {
            crate::stats::tick();
            let s: &'a [T] = self;
            s.get(i)
        }
        fn make_span(&self, start: usize, end: usize) -> Self::Span {
            span::SimpleSpan::new(start, end)
        }
    }
    pub trait ValueInput<'a>: Input<'a> {}
    pub trait BorrowInput<'a>: Input<'a> {}
    pub trait SliceInput<'a>: Input<'a> {}
    impl<'a, T: Clone + 'a> ValueInput<'a> for &'a [T] {}
    impl<'a, T: 'a> BorrowInput<'a> for &'a [T] {}
    impl<'a, T: 'a> SliceInput<'a> for &'a [T] {}

    macro_rules! pos_type {
        ($n:ident) => {
            pub struct $n<'a, 'parse, I: Input<'a>> {
                pub(crate) at: usize,
                pub(crate) phantom: PhantomData<(&'a (), &'parse (), fn() -> I)>,
            }
            impl<'a, 'parse, I: Input<'a>> Copy for $n<'a, 'parse, I> {}
            impl<'a, 'parse, I: Input<'a>> Clone for $n<'a, 'parse, I> {
                fn clone(&self) -> Self {
                    *self
                }
            }
            impl<'a, 'parse, I: Input<'a>> PartialEq for $n<'a, 'parse, I> {
                fn eq(&self, o: &Self) -> bool {
                    self.at == o.at
                }
            }
            impl<'a, 'parse, I: Input<'a>> Eq for $n<'a, 'parse, I> {}
            impl<'a, 'parse, I: Input<'a>> PartialOrd for $n<'a, 'parse, I> {
                fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                    Some(self.at.cmp(&o.at))
                }
            }
            impl<'a, 'parse, I: Input<'a>> Ord for $n<'a, 'parse, I> {
                fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                    self.at.cmp(&o.at)
                }
            }
        };
    }
    pos_type!(Marker);
    pos_type!(Offset);
    impl<'a, 'parse, I: Input<'a>> Marker<'a, 'parse, I> {
        pub fn offset(self) -> Offset<'a, 'parse, I> {
            Offset { at: self.at, phantom: PhantomData }
        }
    }

    pub struct InputRef<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> {
        pub(crate) input: &'parse I,
        pub(crate) at: usize,
        pub(crate) phantom: PhantomData<(&'a (), fn() -> E)>,
    }

    impl<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> InputRef<'a, 'parse, I, E> {
        pub fn save(&self) -> Marker<'a, 'parse, I> {
            Marker { at: self.at, phantom: PhantomData }
        }
        pub fn offset(&self) -> Offset<'a, 'parse, I> {
            Offset { at: self.at, phantom: PhantomData }
        }
        pub fn rewind(&mut self, marker: Marker<'a, 'parse, I>) {
            self.at = marker.at;
        }
        pub fn span_since(&self, before: Offset<'a, 'parse, I>) -> I::Span {
            self.input.make_span(before.at, self.at)
        }
        pub fn span(
            &self,
            range: std::ops::Range<Offset<'a, 'parse, I>>,
        ) -> I::Span {
            self.input.make_span(range.start.at, range.end.at)
        }
        pub(crate) fn next_ref_inner(&mut self) -> Option<&'a I::Token> {
            let t = self.input.token_at(self.at)?;
            self.at += 1;
            Some(t)
        }
        pub fn next_maybe(&mut self) -> Option<util::MaybeRef<'a, I::Token>> {
            self.next_ref_inner().map(util::Maybe::Ref)
        }
        pub fn peek_maybe(&self) -> Option<util::MaybeRef<'a, I::Token>> {
            self.input.token_at(self.at).map(util::Maybe::Ref)
        }
        pub fn next(&mut self) -> Option<I::Token>
        where
            I::Token: Clone,
        {
            self.next_ref_inner().cloned()
        }
        pub fn peek(&self) -> Option<I::Token>
        where
            I::Token: Clone,
        {
            self.input.token_at(self.at).cloned()
        }
        pub fn next_ref(&mut self) -> Option<&'a I::Token> {
            self.next_ref_inner()
        }
        pub fn peek_ref(&self) -> Option<&'a I::Token> {
            self.input.token_at(self.at)
        }
        pub fn skip(&mut self)
        {
            let _ = self.next_ref_inner();
        }
        pub fn parse<O, P: Parser<'a, I, O, E>>(&mut self, parser: P) -> Result<O, E::Error> {
            match parser.go(self) {
                Ok(v) => Ok(v),
                Err(()) => Err(self.make_err()),
            }
        }
        pub fn check<O, P: Parser<'a, I, O, E>>(&mut self, parser: P) -> Result<(), E::Error> {
            match parser.go_check(self) {
                Ok(()) => Ok(()),
                Err(()) => Err(self.make_err()),
            }
        }
        pub(crate) fn make_err(&self) -> E::Error {
            E::Error::expected_found(None, None, self.input.make_span(self.at, self.at))
        }
    }
}

/// The result of a top level parse.
#[derive(Debug, Clone, PartialEq)]
pub struct ParseResult<T, E> {
    output: Option<T>,
    errs: Vec<E>,
}
impl<T, E> ParseResult<T, E> {
    pub fn has_output(&self) -> bool {
        self.output.is_some()
    }
    pub fn has_errors(&self) -> bool {
        !self.errs.is_empty()
    }
    pub fn output(&self) -> Option<&T> {
        self.output.as_ref()
    }
    pub fn errors(&self) -> impl ExactSizeIterator<Item = &E> {
        self.errs.iter()
    }
    pub fn into_output(self) -> Option<T> {
        self.output
    }
    pub fn into_errors(self) -> Vec<E> {
        self.errs
    }
    pub fn into_output_errors(self) -> (Option<T>, Vec<E>) {
        (self.output, self.errs)
    }
    pub fn into_result(self) -> Result<T, Vec<E>> {
        if self.errs.is_empty() {
            self.output.ok_or(self.errs)
        } else {
            Err(self.errs)
        }
    }
    pub fn unwrap(self) -> T
    where
        E: std::fmt::Debug,
    {
        self.into_result().unwrap()
    }
}

pub trait Parser<'a, I: Input<'a>, O, E: ParserExtra<'a, I> = extra::Default> {
    #[doc(hidden)]
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()>;
    #[doc(hidden)]
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
        self.go(inp).map(|_| ())
    }

    fn parse(&self, input: I) -> ParseResult<O, E::Error>
    where
        Self: Sized,
    {
        let mut inp: InputRef<'a, '_, I, E> = InputRef { input: &input, at: 0, phantom: PhantomData };
        match self.go(&mut inp) {
            Ok(v) => {
                if inp.peek_maybe().is_some() {
                    let err = inp.make_err();
                    // Like chumsky: no output when the end was not reached.
                    ParseResult { output: None, errs: vec![err] }
                } else {
                    ParseResult { output: Some(v), errs: vec![] }
                }
            }
            Err(()) => {
                let err = inp.make_err();
                ParseResult { output: None, errs: vec![err] }
            }
        }
    }
    fn map<U, F: Fn(O) -> U>(self, f: F) -> combinator::Map<Self, O, F>
    where
        Self: Sized,
    {
        combinator::Map { a: self, f, p: PhantomData }
    }
    fn map_with_span<U, F: Fn(O, I::Span) -> U>(self, f: F) -> combinator::MapWithSpan<Self, O, F>
    where
        Self: Sized,
    {
        combinator::MapWithSpan { a: self, f, p: PhantomData }
    }
    fn to<U: Clone>(self, to: U) -> combinator::To<Self, O, U>
    where
        Self: Sized,
    {
        combinator::To { a: self, to, p: PhantomData }
    }
    fn ignored(self) -> combinator::To<Self, O, ()>
    where
        Self: Sized,
    {
        combinator::To { a: self, to: (), p: PhantomData }
    }
    fn filter<F: Fn(&O) -> bool>(self, f: F) -> combinator::Filter<Self, F>
    where
        Self: Sized,
    {
        combinator::Filter { a: self, f }
    }
    fn then<U, B: Parser<'a, I, U, E>>(self, other: B) -> combinator::Then<Self, B, O, U, E>
    where
        Self: Sized,
    {
        combinator::Then { a: self, b: other, p: PhantomData }
    }
    fn ignore_then<U, B: Parser<'a, I, U, E>>(
        self,
        other: B,
    ) -> combinator::IgnoreThen<Self, B, O, E>
    where
        Self: Sized,
    {
        combinator::IgnoreThen { a: self, b: other, p: PhantomData }
    }
    fn then_ignore<U, B: Parser<'a, I, U, E>>(
        self,
        other: B,
    ) -> combinator::ThenIgnore<Self, B, U, E>
    where
        Self: Sized,
    {
        combinator::ThenIgnore { a: self, b: other, p: PhantomData }
    }
    fn delimited_by<U, V, B: Parser<'a, I, U, E>, C: Parser<'a, I, V, E>>(
        self,
        start: B,
        end: C,
    ) -> combinator::ThenIgnore<combinator::IgnoreThen<B, Self, U, E>, C, V, E>
    where
        Self: Sized,
    {
        combinator::ThenIgnore {
            a: combinator::IgnoreThen { a: start, b: self, p: PhantomData },
            b: end,
            p: PhantomData,
        }
    }
    fn or<B: Parser<'a, I, O, E>>(self, other: B) -> combinator::Or<Self, B>
    where
        Self: Sized,
    {
        combinator::Or { a: self, b: other }
    }
    fn or_not(self) -> combinator::OrNot<Self>
    where
        Self: Sized,
    {
        combinator::OrNot { a: self }
    }
    fn not(self) -> combinator::Not<Self, O>
    where
        Self: Sized,
    {
        combinator::Not { a: self, p: PhantomData }
    }
    fn and_is<U, B: Parser<'a, I, U, E>>(self, other: B) -> combinator::AndIs<Self, B, U>
    where
        Self: Sized,
    {
        combinator::AndIs { a: self, b: other, p: PhantomData }
    }
    fn rewind(self) -> combinator::Rewind<Self>
    where
        Self: Sized,
    {
        combinator::Rewind { a: self }
    }
    fn repeated(self) -> combinator::Repeated<Self, O, I, E>
    where
        Self: Sized,
    {
        combinator::Repeated { a: self, at_least: 0, at_most: usize::MAX, p: PhantomData }
    }
    fn try_map<U, F: Fn(O, I::Span) -> Result<U, E::Error>>(self, f: F) -> combinator::TryMap<Self, O, F>
    where
        Self: Sized,
    {
        combinator::TryMap { a: self, f, p: PhantomData }
    }
    fn padded_by<U, B: Parser<'a, I, U, E> + Clone>(
        self,
        padding: B,
    ) -> combinator::ThenIgnore<combinator::IgnoreThen<B, Self, U, E>, B, U, E>
    where
        Self: Sized,
    {
        combinator::ThenIgnore {
            a: combinator::IgnoreThen { a: padding.clone(), b: self, p: PhantomData },
            b: padding,
            p: PhantomData,
        }
    }
    fn foldl<OB, B: IterParser<'a, I, OB, E>, F: Fn(O, OB) -> O>(
        self,
        other: B,
        f: F,
    ) -> combinator::Foldl<Self, B, OB, F>
    where
        Self: Sized,
    {
        combinator::Foldl { a: self, b: other, f, p: PhantomData }
    }
    fn separated_by<U, B: Parser<'a, I, U, E>>(self, separator: B) -> combinator::SeparatedBy<Self, B, O, U>
    where
        Self: Sized,
    {
        combinator::SeparatedBy {
            a: self,
            b: separator,
            at_least: 0,
            at_most: usize::MAX,
            leading: false,
            trailing: false,
            p: PhantomData,
        }
    }
    fn with_ctx<Ctx: Clone>(self, ctx: Ctx) -> combinator::WithCtx<Self, Ctx>
    where
        Self: Sized,
    {
        combinator::WithCtx { a: self, ctx }
    }
    fn boxed<'b>(self) -> Boxed<'a, 'b, I, O, E>
    where
        Self: Sized + 'a + 'b,
    {
        Boxed { inner: Rc::new(self) }
    }
}

pub trait IterParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I> = extra::Default> {
    /// Calls `f` on every item.
    #[doc(hidden)]
    fn go_iter(&self, inp: &mut InputRef<'a, '_, I, E>, f: &mut dyn FnMut(O)) -> Result<(), ()>;
    #[doc(hidden)]
    fn go_iter_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()>;

    fn collect<C: container::Container<O>>(self) -> combinator::Collect<Self, O, C>
    where
        Self: Sized,
    {
        combinator::Collect { a: self, p: PhantomData }
    }
    fn foldr<OB, B: Parser<'a, I, OB, E>, F: Fn(O, OB) -> OB>(
        self,
        other: B,
        f: F,
    ) -> combinator::Foldr<Self, B, O, F>
    where
        Self: Sized,
    {
        combinator::Foldr { a: self, b: other, f, p: PhantomData }
    }
    fn count(self) -> combinator::Collect<Self, O, usize>
    where
        Self: Sized,
    {
        combinator::Collect { a: self, p: PhantomData }
    }
}

pub mod container {
    pub trait Container<T>: Default {
        fn push(&mut self, item: T);
    }
    impl<T> Container<T> for Vec<T> {
        fn push(&mut self, item: T) {
            Vec::push(self, item)
        }
    }
    impl<T> Container<T> for () {
        fn push(&mut self, _: T) {}
    }
    impl<T> Container<T> for usize {
        fn push(&mut self, _: T) {
            *self += 1
        }
    }
    impl Container<char> for String {
        fn push(&mut self, item: char) {
            String::push(self, item)
        }
    }
    impl Container<String> for String {
        fn push(&mut self, item: String) {
            self.push_str(&item)
        }
    }
    impl<'a> Container<&'a str> for String {
        fn push(&mut self, item: &'a str) {
            self.push_str(item)
        }
    }
}

pub struct Boxed<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> {
    inner: Rc<dyn Parser<'a, I, O, E> + 'b>,
}
impl<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> Clone for Boxed<'a, 'b, I, O, E> {
    fn clone(&self) -> Self {
        Boxed { inner: self.inner.clone() }
    }
}
impl<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> Parser<'a, I, O, E> for Boxed<'a, 'b, I, O, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
        self.inner.go(inp)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
        self.inner.go_check(inp)
    }
}
impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: Parser<'a, I, O, E> + ?Sized> Parser<'a, I, O, E>
    for &P
{
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
        (**self).go(inp)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
        (**self).go_check(inp)
    }
}

pub mod combinator {
    use super::*;

    pub struct Map<A, O, F> {
        pub(crate) a: A,
        pub(crate) f: F,
        pub(crate) p: Phantom<O>,
    }
    impl<A: Copy, O, F: Copy> Copy for Map<A, O, F> {}
    impl<A: Clone, O, F: Clone> Clone for Map<A, O, F> {
        fn clone(&self) -> Self {
            Map { a: self.a.clone(), f: self.f.clone(), p: PhantomData }
        }
    }
    impl<'a, I: Input<'a>, O, U, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, F: Fn(O) -> U>
        Parser<'a, I, U, E> for Map<A, O, F>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<U, ()> {
            self.a.go(inp).map(|v| (self.f)(v))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_check(inp)
        }
    }

    pub struct MapWithSpan<A, O, F> {
        pub(crate) a: A,
        pub(crate) f: F,
        pub(crate) p: Phantom<O>,
    }
    impl<A: Copy, O, F: Copy> Copy for MapWithSpan<A, O, F> {}
    impl<A: Clone, O, F: Clone> Clone for MapWithSpan<A, O, F> {
        fn clone(&self) -> Self {
            MapWithSpan { a: self.a.clone(), f: self.f.clone(), p: PhantomData }
        }
    }
    impl<'a, I: Input<'a>, O, U, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, F: Fn(O, I::Span) -> U>
        Parser<'a, I, U, E> for MapWithSpan<A, O, F>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<U, ()> {
            let before = inp.offset();
            let v = self.a.go(inp)?;
            let span = inp.span_since(before);
            Ok((self.f)(v, span))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_check(inp)
        }
    }

    pub struct To<A, O, U> {
        pub(crate) a: A,
        pub(crate) to: U,
        pub(crate) p: Phantom<O>,
    }
    impl<A: Copy, O, U: Copy> Copy for To<A, O, U> {}
    impl<A: Clone, O, U: Clone> Clone for To<A, O, U> {
        fn clone(&self) -> Self {
            To { a: self.a.clone(), to: self.to.clone(), p: PhantomData }
        }
    }
    impl<'a, I: Input<'a>, O, U: Clone, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>>
        Parser<'a, I, U, E> for To<A, O, U>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<U, ()> {
            self.a.go_check(inp)?;
            Ok(self.to.clone())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_check(inp)
        }
    }

    #[derive(Copy, Clone)]
    pub struct Filter<A, F> {
        pub(crate) a: A,
        pub(crate) f: F,
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, F: Fn(&O) -> bool>
        Parser<'a, I, O, E> for Filter<A, F>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let v = self.a.go(inp)?;
            if (self.f)(&v) {
                Ok(v)
            } else {
                Err(())
            }
        }
    }

    pub struct Then<A, B, OA, OB, E> {
        pub(crate) a: A,
        pub(crate) b: B,
        pub(crate) p: Phantom<(OA, OB, E)>,
    }
    impl<A: Copy, B: Copy, OA, OB, E> Copy for Then<A, B, OA, OB, E> {}
    impl<A: Clone, B: Clone, OA, OB, E> Clone for Then<A, B, OA, OB, E> {
        fn clone(&self) -> Self {
            Then { a: self.a.clone(), b: self.b.clone(), p: PhantomData }
        }
    }
    impl<'a, I: Input<'a>, OA, OB, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>>
        Parser<'a, I, (OA, OB), E> for Then<A, B, OA, OB, E>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(OA, OB), ()> {
            let a = self.a.go(inp)?;
            let b = self.b.go(inp)?;
            Ok((a, b))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_check(inp)?;
            self.b.go_check(inp)
        }
    }

    pub struct IgnoreThen<A, B, OA, E> {
        pub(crate) a: A,
        pub(crate) b: B,
        pub(crate) p: Phantom<(OA, E)>,
    }
    impl<A: Copy, B: Copy, OA, E> Copy for IgnoreThen<A, B, OA, E> {}
    impl<A: Clone, B: Clone, OA, E> Clone for IgnoreThen<A, B, OA, E> {
        fn clone(&self) -> Self {
            IgnoreThen { a: self.a.clone(), b: self.b.clone(), p: PhantomData }
        }
    }
    impl<'a, I: Input<'a>, OA, OB, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>>
        Parser<'a, I, OB, E> for IgnoreThen<A, B, OA, E>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<OB, ()> {
            self.a.go_check(inp)?;
            self.b.go(inp)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_check(inp)?;
            self.b.go_check(inp)
        }
    }

    pub struct ThenIgnore<A, B, OB, E> {
        pub(crate) a: A,
        pub(crate) b: B,
        pub(crate) p: Phantom<(OB, E)>,
    }
    impl<A: Copy, B: Copy, OB, E> Copy for ThenIgnore<A, B, OB, E> {}
    impl<A: Clone, B: Clone, OB, E> Clone for ThenIgnore<A, B, OB, E> {
        fn clone(&self) -> Self {
            ThenIgnore { a: self.a.clone(), b: self.b.clone(), p: PhantomData }
        }
    }
    impl<'a, I: Input<'a>, OA, OB, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>>
        Parser<'a, I, OA, E> for ThenIgnore<A, B, OB, E>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<OA, ()> {
            let a = self.a.go(inp)?;
            self.b.go_check(inp)?;
            Ok(a)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_check(inp)?;
            self.b.go_check(inp)
        }
    }

    #[derive(Copy, Clone)]
    pub struct Or<A, B> {
        pub(crate) a: A,
        pub(crate) b: B,
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, B: Parser<'a, I, O, E>>
        Parser<'a, I, O, E> for Or<A, B>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.save();
            match self.a.go(inp) {
                Ok(v) => Ok(v),
                Err(()) => {
                    inp.rewind(before);
                    self.b.go(inp)
                }
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            match self.a.go_check(inp) {
                Ok(v) => Ok(v),
                Err(()) => {
                    inp.rewind(before);
                    self.b.go_check(inp)
                }
            }
        }
    }

    #[derive(Copy, Clone)]
    pub struct OrNot<A> {
        pub(crate) a: A,
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>>
        Parser<'a, I, Option<O>, E> for OrNot<A>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<Option<O>, ()> {
            let before = inp.save();
            match self.a.go(inp) {
                Ok(v) => Ok(Some(v)),
                Err(()) => {
                    inp.rewind(before);
                    Ok(None)
                }
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            if self.a.go_check(inp).is_err() {
                inp.rewind(before);
            }
            Ok(())
        }
    }

    pub struct Not<A, O> {
        pub(crate) a: A,
        pub(crate) p: Phantom<O>,
    }
    impl<A: Copy, O> Copy for Not<A, O> {}
    impl<A: Clone, O> Clone for Not<A, O> {
        fn clone(&self) -> Self {
            Not { a: self.a.clone(), p: PhantomData }
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, (), E>
        for Not<A, O>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            let r = self.a.go_check(inp);
            inp.rewind(before);
            match r {
                Ok(()) => Err(()),
                Err(()) => Ok(()),
            }
        }
    }

    pub struct AndIs<A, B, OB> {
        pub(crate) a: A,
        pub(crate) b: B,
        pub(crate) p: Phantom<OB>,
    }
    impl<A: Copy, B: Copy, OB> Copy for AndIs<A, B, OB> {}
    impl<A: Clone, B: Clone, OB> Clone for AndIs<A, B, OB> {
        fn clone(&self) -> Self {
            AndIs { a: self.a.clone(), b: self.b.clone(), p: PhantomData }
        }
    }
    impl<'a, I: Input<'a>, O, OB, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, B: Parser<'a, I, OB, E>>
        Parser<'a, I, O, E> for AndIs<A, B, OB>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.save();
            let out = self.a.go(inp)?;
            let after = inp.save();
            inp.rewind(before);
            self.b.go_check(inp)?;
            inp.rewind(after);
            Ok(out)
        }
    }

    #[derive(Copy, Clone)]
    pub struct Rewind<A> {
        pub(crate) a: A,
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, O, E>
        for Rewind<A>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.save();
            let v = self.a.go(inp)?;
            inp.rewind(before);
            Ok(v)
        }
    }

    pub struct Repeated<A, O, I, E> {
        pub(crate) a: A,
        pub(crate) at_least: usize,
        pub(crate) at_most: usize,
        pub(crate) p: Phantom<(O, I, E)>,
    }
    impl<A: Copy, O, I, E> Copy for Repeated<A, O, I, E> {}
    impl<A: Clone, O, I, E> Clone for Repeated<A, O, I, E> {
        fn clone(&self) -> Self {
            Repeated { a: self.a.clone(), at_least: self.at_least, at_most: self.at_most, p: PhantomData }
        }
    }
    impl<A, O, I, E> Repeated<A, O, I, E> {
        pub fn at_least(self, at_least: usize) -> Self {
            Repeated { at_least, ..self }
        }
        pub fn at_most(self, at_most: usize) -> Self {
            Repeated { at_most, ..self }
        }
        pub fn exactly(self, n: usize) -> Self {
            Repeated { at_least: n, at_most: n, ..self }
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> IterParser<'a, I, O, E>
        for Repeated<A, O, I, E>
    {
        fn go_iter(&self, inp: &mut InputRef<'a, '_, I, E>, f: &mut dyn FnMut(O)) -> Result<(), ()> {
            let mut n = 0;
            while n < self.at_most {
                let before = inp.save();
                match self.a.go(inp) {
                    Ok(v) => {
                        if inp.save() == before && self.at_most == usize::MAX {
                            panic!("found Repeated combinator making no progress");
                        }
                        f(v);
                        n += 1;
                    }
                    Err(()) => {
                        inp.rewind(before);
                        break;
                    }
                }
            }
            if n >= self.at_least {
                Ok(())
            } else {
                Err(())
            }
        }
        fn go_iter_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let mut n = 0;
            while n < self.at_most {
                let before = inp.save();
                match self.a.go_check(inp) {
                    Ok(()) => {
                        if inp.save() == before && self.at_most == usize::MAX {
                            panic!("found Repeated combinator making no progress");
                        }
                        n += 1;
                    }
                    Err(()) => {
                        inp.rewind(before);
                        break;
                    }
                }
            }
            if n >= self.at_least {
                Ok(())
            } else {
                Err(())
            }
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, (), E>
        for Repeated<A, O, I, E>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.go_iter_check(inp)
        }
    }

    pub struct TryMap<A, O, F> {
        pub(crate) a: A,
        pub(crate) f: F,
        pub(crate) p: Phantom<O>,
    }
    impl<A: Clone, O, F: Clone> Clone for TryMap<A, O, F> {
        fn clone(&self) -> Self {
            TryMap { a: self.a.clone(), f: self.f.clone(), p: PhantomData }
        }
    }
    impl<'a, I, O, U, E, A, F> Parser<'a, I, U, E> for TryMap<A, O, F>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        A: Parser<'a, I, O, E>,
        F: Fn(O, I::Span) -> Result<U, E::Error>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<U, ()> {
            let before = inp.offset();
            let v = self.a.go(inp)?;
            let span = inp.span_since(before);
            (self.f)(v, span).map_err(|_| ())
        }
    }

    pub struct Foldl<A, B, OB, F> {
        pub(crate) a: A,
        pub(crate) b: B,
        pub(crate) f: F,
        pub(crate) p: Phantom<OB>,
    }
    impl<A: Clone, B: Clone, OB, F: Clone> Clone for Foldl<A, B, OB, F> {
        fn clone(&self) -> Self {
            Foldl { a: self.a.clone(), b: self.b.clone(), f: self.f.clone(), p: PhantomData }
        }
    }
    impl<'a, I, O, OB, E, A, B, F> Parser<'a, I, O, E> for Foldl<A, B, OB, F>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        A: Parser<'a, I, O, E>,
        B: IterParser<'a, I, OB, E>,
        F: Fn(O, OB) -> O,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let mut out = Some(self.a.go(inp)?);
            self.b.go_iter(inp, &mut |v| out = out.take().map(|o| (self.f)(o, v)))?;
            out.ok_or(())
        }
    }

    pub struct Foldr<A, B, OA, F> {
        pub(crate) a: A,
        pub(crate) b: B,
        pub(crate) f: F,
        pub(crate) p: Phantom<OA>,
    }
    impl<A: Clone, B: Clone, OA, F: Clone> Clone for Foldr<A, B, OA, F> {
        fn clone(&self) -> Self {
            Foldr { a: self.a.clone(), b: self.b.clone(), f: self.f.clone(), p: PhantomData }
        }
    }
    impl<'a, I, O, OA, E, A, B, F> Parser<'a, I, O, E> for Foldr<A, B, OA, F>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        A: IterParser<'a, I, OA, E>,
        B: Parser<'a, I, O, E>,
        F: Fn(OA, O) -> O,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let mut items = vec![];
            self.a.go_iter(inp, &mut |v| items.push(v))?;
            let last = self.b.go(inp)?;
            Ok(items.into_iter().rev().fold(last, |o, v| (self.f)(v, o)))
        }
    }

    pub struct SeparatedBy<A, B, OA, OB> {
        pub(crate) a: A,
        pub(crate) b: B,
        pub(crate) at_least: usize,
        pub(crate) at_most: usize,
        pub(crate) leading: bool,
        pub(crate) trailing: bool,
        pub(crate) p: Phantom<(OA, OB)>,
    }
    impl<A: Clone, B: Clone, OA, OB> Clone for SeparatedBy<A, B, OA, OB> {
        fn clone(&self) -> Self {
            SeparatedBy { a: self.a.clone(), b: self.b.clone(), p: PhantomData, ..*self }
        }
    }
    impl<A, B, OA, OB> SeparatedBy<A, B, OA, OB> {
        pub fn at_least(self, at_least: usize) -> Self {
            SeparatedBy { at_least, ..self }
        }
        pub fn at_most(self, at_most: usize) -> Self {
            SeparatedBy { at_most, ..self }
        }
        pub fn exactly(self, n: usize) -> Self {
            SeparatedBy { at_least: n, at_most: n, ..self }
        }
        pub fn allow_leading(self) -> Self {
            SeparatedBy { leading: true, ..self }
        }
        pub fn allow_trailing(self) -> Self {
            SeparatedBy { trailing: true, ..self }
        }
    }
    impl<'a, I, OA, OB, E, A, B> IterParser<'a, I, OA, E> for SeparatedBy<A, B, OA, OB>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        A: Parser<'a, I, OA, E>,
        B: Parser<'a, I, OB, E>,
    {
        fn go_iter(&self, inp: &mut InputRef<'a, '_, I, E>, f: &mut dyn FnMut(OA)) -> Result<(), ()> {
            let mut n = 0;
            while n < self.at_most {
                let before = inp.save();
                if n > 0 || self.leading {
                    let found = self.b.go_check(inp).is_ok();
                    if !found {
                        inp.rewind(before);
                        if n > 0 {
                            break;
                        }
                    }
                }
                match self.a.go(inp) {
                    Ok(v) => {
                        if inp.save() == before && self.at_most == usize::MAX {
                            panic!("found SeparatedBy combinator making no progress");
                        }
                        f(v);
                        n += 1;
                    }
                    Err(()) => {
                        inp.rewind(before);
                        break;
                    }
                }
            }
            if n < self.at_least {
                return Err(());
            }
            if self.trailing && n > 0 {
                let before = inp.save();
                if self.b.go_check(inp).is_err() {
                    inp.rewind(before);
                }
            }
            Ok(())
        }
        fn go_iter_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.go_iter(inp, &mut |_| ())
        }
    }
    impl<'a, I, OA, OB, E, A, B> Parser<'a, I, (), E> for SeparatedBy<A, B, OA, OB>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        A: Parser<'a, I, OA, E>,
        B: Parser<'a, I, OB, E>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.go_iter_check(inp)
        }
    }

    pub struct Collect<A, O, C> {
        pub(crate) a: A,
        pub(crate) p: Phantom<(O, C)>,
    }
    impl<A: Copy, O, C> Copy for Collect<A, O, C> {}
    impl<A: Clone, O, C> Clone for Collect<A, O, C> {
        fn clone(&self) -> Self {
            Collect { a: self.a.clone(), p: PhantomData }
        }
    }
    impl<'a, I: Input<'a>, O, C: container::Container<O>, E: ParserExtra<'a, I>, A: IterParser<'a, I, O, E>>
        Parser<'a, I, C, E> for Collect<A, O, C>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<C, ()> {
            let mut c = C::default();
            self.a.go_iter(inp, &mut |v| c.push(v))?;
            Ok(c)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.a.go_iter_check(inp)
        }
    }

    #[derive(Copy, Clone)]
    pub struct WithCtx<A, Ctx> {
        pub(crate) a: A,
        #[allow(dead_code)]
        pub(crate) ctx: Ctx,
    }
    impl<
            'a,
            I: Input<'a>,
            O,
            E: ParserExtra<'a, I>,
            Ctx: Clone + 'a,
            A: Parser<'a, I, O, extra::Full<E::Error, E::State, Ctx>>,
        > Parser<'a, I, O, E> for WithCtx<A, Ctx>
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let mut inner = InputRef { input: inp.input, at: inp.at, phantom: PhantomData };
            let r = self.a.go(&mut inner);
            inp.at = inner.at;
            r
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let mut inner = InputRef { input: inp.input, at: inp.at, phantom: PhantomData };
            let r = self.a.go_check(&mut inner);
            inp.at = inner.at;
            r
        }
    }
}

pub mod primitive {
    use super::*;

    pub struct End<I, E>(Phantom<(I, E)>);
    impl<I, E> Copy for End<I, E> {}
    impl<I, E> Clone for End<I, E> {
        fn clone(&self) -> Self {
            *self
        }
    }
    pub const fn end<'a, I: Input<'a>, E: ParserExtra<'a, I>>() -> End<I, E> {
        End(PhantomData)
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, (), E> for End<I, E> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            match inp.next_ref_inner() {
                None => Ok(()),
                Some(_) => {
                    inp.rewind(before);
                    Err(())
                }
            }
        }
    }

    pub struct Empty<I, E>(Phantom<(I, E)>);
    impl<I, E> Copy for Empty<I, E> {}
    impl<I, E> Clone for Empty<I, E> {
        fn clone(&self) -> Self {
            *self
        }
    }
    pub const fn empty<'a, I: Input<'a>, E: ParserExtra<'a, I>>() -> Empty<I, E> {
        Empty(PhantomData)
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, (), E> for Empty<I, E> {
        fn go(&self, _: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            Ok(())
        }
    }

    pub struct Any<I, E>(Phantom<(I, E)>);
    impl<I, E> Copy for Any<I, E> {}
    impl<I, E> Clone for Any<I, E> {
        fn clone(&self) -> Self {
            *self
        }
    }
    pub const fn any<'a, I: Input<'a>, E: ParserExtra<'a, I>>() -> Any<I, E> {
        Any(PhantomData)
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, I::Token, E> for Any<I, E>
    where
        I::Token: Clone,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<I::Token, ()> {
            let before = inp.save();
            match inp.next_ref_inner() {
                Some(t) => Ok(t.clone()),
                None => {
                    inp.rewind(before);
                    Err(())
                }
            }
        }
    }

    /// A sequence of tokens.
    pub trait OrderedSeq<T> {
        fn for_each_token(&self, f: &mut dyn FnMut(&T) -> bool) -> bool;
        fn has(&self, t: &T) -> bool
        where
            T: PartialEq,
        {
            !self.for_each_token(&mut |x| x != t)
        }
    }
    impl<T> OrderedSeq<T> for T {
        fn for_each_token(&self, f: &mut dyn FnMut(&T) -> bool) -> bool {
            f(self)
        }
    }
    impl<T> OrderedSeq<T> for Vec<T> {
        fn for_each_token(&self, f: &mut dyn FnMut(&T) -> bool) -> bool {
            self.iter().all(|t| f(t))
        }
    }
    impl<T, const N: usize> OrderedSeq<T> for [T; N] {
        fn for_each_token(&self, f: &mut dyn FnMut(&T) -> bool) -> bool {
            self.iter().all(|t| f(t))
        }
    }

    pub struct Just<T, I, E> {
        seq: T,
        p: Phantom<(I, E)>,
    }
    impl<T: Copy, I, E> Copy for Just<T, I, E> {}
    impl<T: Clone, I, E> Clone for Just<T, I, E> {
        fn clone(&self) -> Self {
            Just { seq: self.seq.clone(), p: PhantomData }
        }
    }
    pub fn just<'a, T, I, E>(seq: T) -> Just<T, I, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq,
        T: OrderedSeq<I::Token> + Clone,
    {
        Just { seq, p: PhantomData }
    }
    impl<'a, I, E, T> Just<T, I, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq + 'a,
        T: OrderedSeq<I::Token> + Clone,
    {
        fn eat(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let ok = self.seq.for_each_token(&mut |t| {
                let before = inp.save();
                match inp.next_ref_inner() {
                    Some(x) if x == t => true,
                    _ => {
                        inp.rewind(before);
                        false
                    }
                }
            });
            if ok {
                Ok(())
            } else {
                Err(())
            }
        }
    }
    impl<'a, I, E, T> Parser<'a, I, T, E> for Just<T, I, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq + 'a,
        T: OrderedSeq<I::Token> + Clone,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<T, ()> {
            self.eat(inp)?;
            Ok(self.seq.clone())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.eat(inp)
        }
    }

    pub struct OneOf<T, I, E> {
        seq: T,
        want: bool,
        p: Phantom<(I, E)>,
    }
    impl<T: Copy, I, E> Copy for OneOf<T, I, E> {}
    impl<T: Clone, I, E> Clone for OneOf<T, I, E> {
        fn clone(&self) -> Self {
            OneOf { seq: self.seq.clone(), want: self.want, p: PhantomData }
        }
    }
    pub fn one_of<'a, T: OrderedSeq<I::Token>, I: Input<'a>, E: ParserExtra<'a, I>>(
        seq: T,
    ) -> OneOf<T, I, E> {
        OneOf { seq, want: true, p: PhantomData }
    }
    pub fn none_of<'a, T: OrderedSeq<I::Token>, I: Input<'a>, E: ParserExtra<'a, I>>(
        seq: T,
    ) -> OneOf<T, I, E> {
        OneOf { seq, want: false, p: PhantomData }
    }
    impl<'a, I, E, T> Parser<'a, I, I::Token, E> for OneOf<T, I, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq + Clone + 'a,
        T: OrderedSeq<I::Token>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<I::Token, ()> {
            let before = inp.save();
            match inp.next_ref_inner() {
                Some(t) if self.seq.has(t) == self.want => Ok(t.clone()),
                _ => {
                    inp.rewind(before);
                    Err(())
                }
            }
        }
    }

    pub struct Select<F, I, O, E> {
        filter: F,
        p: Phantom<(I, O, E)>,
    }
    impl<F: Copy, I, O, E> Copy for Select<F, I, O, E> {}
    impl<F: Clone, I, O, E> Clone for Select<F, I, O, E> {
        fn clone(&self) -> Self {
            Select { filter: self.filter.clone(), p: PhantomData }
        }
    }
    pub fn select<'a, F, I, O, E>(filter: F) -> Select<F, I, O, E>
    where
        I: Input<'a>,
        I::Token: Clone + 'a,
        E: ParserExtra<'a, I>,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        Select { filter, p: PhantomData }
    }
    impl<'a, I, O, E, F> Parser<'a, I, O, E> for Select<F, I, O, E>
    where
        I: Input<'a>,
        I::Token: Clone + 'a,
        E: ParserExtra<'a, I>,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.save();
            if let Some(t) = inp.next_ref_inner() {
                let span = inp.span_since(before.offset());
                if let Some(o) = (self.filter)(t.clone(), span) {
                    return Ok(o);
                }
            }
            inp.rewind(before);
            Err(())
        }
    }

    pub struct SelectRef<F, I, O, E> {
        filter: F,
        p: Phantom<(I, O, E)>,
    }
    impl<F: Copy, I, O, E> Copy for SelectRef<F, I, O, E> {}
    impl<F: Clone, I, O, E> Clone for SelectRef<F, I, O, E> {
        fn clone(&self) -> Self {
            SelectRef { filter: self.filter.clone(), p: PhantomData }
        }
    }
    pub fn select_ref<'a, F, I, O, E>(filter: F) -> SelectRef<F, I, O, E>
    where
        I: Input<'a>,
        I::Token: 'a,
        E: ParserExtra<'a, I>,
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        SelectRef { filter, p: PhantomData }
    }
    impl<'a, I, O, E, F> Parser<'a, I, O, E> for SelectRef<F, I, O, E>
    where
        I: Input<'a>,
        I::Token: 'a,
        E: ParserExtra<'a, I>,
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.save();
            if let Some(t) = inp.next_ref_inner() {
                let span = inp.span_since(before.offset());
                if let Some(o) = (self.filter)(t, span) {
                    return Ok(o);
                }
            }
            inp.rewind(before);
            Err(())
        }
    }

    pub struct Custom<F, O> {
        f: F,
        p: Phantom<O>,
    }
    impl<F: Copy, O> Copy for Custom<F, O> {}
    impl<F: Clone, O> Clone for Custom<F, O> {
        fn clone(&self) -> Self {
            Custom { f: self.f.clone(), p: PhantomData }
        }
    }
    pub fn custom<'a, F, I, O, E>(f: F) -> Custom<F, O>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(&mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>,
    {
        Custom { f, p: PhantomData }
    }
    impl<'a, I, O, E, F> Parser<'a, I, O, E> for Custom<F, O>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(&mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            (self.f)(inp).map_err(|_| ())
        }
    }

    #[derive(Copy, Clone)]
    pub struct Choice<T> {
        parsers: T,
    }
    pub const fn choice<T>(parsers: T) -> Choice<T> {
        Choice { parsers }
    }
    macro_rules! slice_choice {
        () => {
            fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
                let before = inp.save();
                for p in self.parsers.iter() {
                    inp.rewind(before);
                    if let Ok(v) = p.go(inp) {
                        return Ok(v);
                    }
                }
                inp.rewind(before);
                Err(())
            }
            fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
                let before = inp.save();
                for p in self.parsers.iter() {
                    inp.rewind(before);
                    if let Ok(v) = p.go_check(inp) {
                        return Ok(v);
                    }
                }
                inp.rewind(before);
                Err(())
            }
        };
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, O, E>
        for Choice<Vec<A>>
    {
        slice_choice!();
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, const N: usize>
        Parser<'a, I, O, E> for Choice<[A; N]>
    {
        slice_choice!();
    }
    macro_rules! tuple_choice {
        ($($n:ident)+) => {
            #[allow(non_snake_case)]
            impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, $($n: Parser<'a, I, O, E>),+>
                Parser<'a, I, O, E> for Choice<($($n,)+)>
            {
                fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
                    let before = inp.save();
                    let ($($n,)+) = &self.parsers;
                    $(
                        inp.rewind(before);
                        if let Ok(v) = $n.go(inp) { return Ok(v); }
                    )+
                    inp.rewind(before);
                    Err(())
                }
                fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
                    let before = inp.save();
                    let ($($n,)+) = &self.parsers;
                    $(
                        inp.rewind(before);
                        if let Ok(v) = $n.go_check(inp) { return Ok(v); }
                    )+
                    inp.rewind(before);
                    Err(())
                }
            }
        };
    }
    tuple_choice!(A_);
    tuple_choice!(A_ B_);
    tuple_choice!(A_ B_ C_);
    tuple_choice!(A_ B_ C_ D_);
    tuple_choice!(A_ B_ C_ D_ E_);
    tuple_choice!(A_ B_ C_ D_ E_ F_);
}

pub mod extension {
    pub mod v1 {
        use super::super::*;
        pub trait ExtParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
            fn parse(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>;
            fn check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
                self.parse(inp).map(|_| ())
            }
        }
        #[repr(transparent)]
        #[derive(Copy, Clone)]
        pub struct Ext<T: ?Sized>(pub T);
        impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, T: ExtParser<'a, I, O, E>> Parser<'a, I, O, E>
            for Ext<T>
        {
            fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
                self.0.parse(inp).map_err(|_| ())
            }
            fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
                self.0.check(inp).map_err(|_| ())
            }
        }
    }
}

pub mod cache {
    /// Something that can create a parser for any input lifetime.
    pub trait Cached {
        type Parser<'src>;
        fn make_parser<'src>(self) -> Self::Parser<'src>;
    }
    pub struct Cache<C: Cached> {
        parser: C::Parser<'static>,
    }
    impl<C: Cached + Default> Default for Cache<C> {
        fn default() -> Self {
            Self::new(C::default())
        }
    }
    impl<C: Cached> Cache<C> {
        pub fn new(cacher: C) -> Self {
            Self { parser: cacher.make_parser() }
        }
        pub fn get<'src>(&self) -> &C::Parser<'src> {
            // Same trick as chumsky: the parser only differs in a lifetime parameter.
            unsafe { &*(&self.parser as *const C::Parser<'static>).cast::<C::Parser<'src>>() }
        }
    }
}

#[macro_export]
macro_rules! select {
    ($($p:pat $(= $span:ident)? $(if $guard:expr)? $(=> $out:expr)?),+ $(,)?) => ({
        $crate::primitive::select(move |x, span| match x {
            $($p $(if $guard)? => ::core::option::Option::Some({ $(let $span = span;)? #[allow(clippy::unused_unit)] { let _ = &span; () $(; $out)? } })),+,
            _ => ::core::option::Option::None,
        })
    });
}

#[macro_export]
macro_rules! select_ref {
    ($($p:pat $(= $span:ident)? $(if $guard:expr)? $(=> $out:expr)?),+ $(,)?) => ({
        $crate::primitive::select_ref(move |x, span| match x {
            $($p $(if $guard)? => ::core::option::Option::Some({ $(let $span = span;)? { let _ = &span; () $(; $out)? } })),+,
            _ => ::core::option::Option::None,
        })
    });
}

pub mod prelude {
    pub use super::{
        error::{Cheap, EmptyErr, Error as _},
        extra,
        input::Input,
        primitive::{any, choice, custom, empty, end, just, none_of, one_of},
        select, select_ref,
        span::{SimpleSpan, Span as _},
        Boxed, IterParser, ParseResult, Parser,
    };
}
