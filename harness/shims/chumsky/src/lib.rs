//! A stand-in for the part of `chumsky` (1.0 alpha, a git dependency that is not available offline)
//! which the `parser` crate uses: the same combinators with the documented meaning. Failure carries no
//! expectations. As in chumsky, checking a parser does not run its `map` closures.
#![allow(clippy::all)]

pub mod util {
    pub enum MaybeRef<'a, T> {
        Ref(&'a T),
        Val(T),
    }
    impl<'a, T> MaybeRef<'a, T> {
        pub fn into_inner(self) -> T
        where
            T: Clone,
        {
            match self {
                MaybeRef::Ref(v) => v.clone(),
                MaybeRef::Val(v) => v,
            }
        }
    }
    impl<'a, T> core::ops::Deref for MaybeRef<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            match self {
                MaybeRef::Ref(v) => v,
                MaybeRef::Val(v) => v,
            }
        }
    }
}

pub mod span {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct SimpleSpan<T = usize> {
        pub start: T,
        pub end: T,
    }
    impl<T> SimpleSpan<T> {
        pub fn into_range(self) -> core::ops::Range<T> {
            self.start..self.end
        }
        pub fn start(&self) -> T
        where
            T: Clone,
        {
            self.start.clone()
        }
        pub fn end(&self) -> T
        where
            T: Clone,
        {
            self.end.clone()
        }
    }
    impl<T> From<core::ops::Range<T>> for SimpleSpan<T> {
        fn from(r: core::ops::Range<T>) -> Self {
            SimpleSpan { start: r.start, end: r.end }
        }
    }
    impl<T> From<SimpleSpan<T>> for core::ops::Range<T> {
        fn from(s: SimpleSpan<T>) -> Self {
            s.start..s.end
        }
    }
    impl SimpleSpan<usize> {
        pub fn new(start: usize, end: usize) -> Self {
            SimpleSpan { start, end }
        }
    }
}

pub mod error {
    use crate::{input::Input, util::MaybeRef};
    pub trait Error<'a, I: Input<'a>>: Sized {
        fn expected_found<E: IntoIterator<Item = Option<MaybeRef<'a, I::Token>>>>(
            expected: E,
            found: Option<MaybeRef<'a, I::Token>>,
            span: I::Span,
        ) -> Self;
    }
}

pub mod extra {
    use crate::{error::Error, input::Input};
    pub trait ParserExtra<'a, I: Input<'a>>: 'a {
        type Error: Error<'a, I> + 'a;
    }
    pub struct Full<E, S, C>(core::marker::PhantomData<(E, S, C)>);
    impl<'a, I: Input<'a>, E: Error<'a, I> + 'a, S: 'a, C: 'a> ParserExtra<'a, I> for Full<E, S, C> {
        type Error = E;
    }
}

pub mod input {
    use crate::{error::Error, extra::ParserExtra, span::SimpleSpan, util::MaybeRef, Parser};
    use core::marker::PhantomData;
    use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};

    /// How often an element of a row has been looked at (not part of chumsky).
    pub static LOOKS: AtomicUsize = AtomicUsize::new(0);

    pub trait Input<'a>: 'a {
        type Token: 'a;
        type Span;
        fn get(&self, at: usize) -> Option<&'a Self::Token>;
        fn span(&self, from: usize, to: usize) -> Self::Span;
    }
    impl<'a, T: 'a> Input<'a> for &'a [T] {
        type Token = T;
        type Span = SimpleSpan<usize>;
        fn get(&self, at: usize) -> Option<&'a T> {
            let all: &'a [T] = self;
            LOOKS.store(LOOKS.load(Relaxed) + 1, Relaxed);
            all.get(at)
        }
        fn span(&self, from: usize, to: usize) -> Self::Span {
            SimpleSpan { start: from, end: to }
        }
    }

    #[derive(Clone, Copy)]
    pub struct Marker(pub(crate) usize);
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Offset(pub(crate) usize);

    pub struct InputRef<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> {
        pub(crate) input: &'parse I,
        pub(crate) at: usize,
        pub(crate) _p: PhantomData<(&'a (), E)>,
    }
    impl<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> InputRef<'a, 'parse, I, E> {
        pub fn save(&self) -> Marker {
            Marker(self.at)
        }
        pub fn rewind(&mut self, m: Marker) {
            self.at = m.0;
        }
        pub fn offset(&self) -> Offset {
            Offset(self.at)
        }
        pub fn span_since(&self, before: Offset) -> I::Span {
            self.input.span(before.0, self.at)
        }
        pub(crate) fn token(&mut self) -> Option<&'a I::Token> {
            let t = self.input.get(self.at);
            if t.is_some() {
                self.at += 1;
            }
            t
        }
        pub fn next_maybe(&mut self) -> Option<MaybeRef<'a, I::Token>> {
            self.token().map(MaybeRef::Ref)
        }
        pub fn peek_maybe(&self) -> Option<MaybeRef<'a, I::Token>> {
            self.input.get(self.at).map(MaybeRef::Ref)
        }
        pub fn next(&mut self) -> Option<I::Token>
        where
            I::Token: Clone,
        {
            self.token().cloned()
        }
        pub fn next_ref(&mut self) -> Option<&'a I::Token> {
            self.token()
        }
        pub fn peek(&self) -> Option<I::Token>
        where
            I::Token: Clone,
        {
            self.input.get(self.at).cloned()
        }
        pub fn peek_ref(&self) -> Option<&'a I::Token> {
            self.input.get(self.at)
        }
        pub fn skip(&mut self) {
            let _ = self.token();
        }
        pub(crate) fn error(&self) -> E::Error {
            E::Error::expected_found(None, None, self.input.span(self.at, self.at))
        }
        pub fn parse<O, P: Parser<'a, I, O, E>>(&mut self, p: P) -> Result<O, E::Error> {
            match p.go(self) {
                Ok(v) => Ok(v),
                Err(_) => Err(self.error()),
            }
        }
        pub fn check<O, P: Parser<'a, I, O, E>>(&mut self, p: P) -> Result<(), E::Error> {
            match p.go_check(self) {
                Ok(()) => Ok(()),
                Err(_) => Err(self.error()),
            }
        }
    }
}

use extra::ParserExtra;
use input::{Input, InputRef};
use std::marker::PhantomData;
use std::rc::Rc;

pub struct Fail;
pub struct ParseResult<O, Err> {
    output: Option<O>,
    errors: Vec<Err>,
}
impl<O, Err> ParseResult<O, Err> {
    pub fn into_output_errors(self) -> (Option<O>, Vec<Err>) {
        (self.output, self.errors)
    }
    pub fn has_output(&self) -> bool {
        self.output.is_some()
    }
    pub fn has_errors(&self) -> bool {
        !self.errors.is_empty()
    }
    pub fn output(&self) -> Option<&O> {
        self.output.as_ref()
    }
    pub fn errors(&self) -> impl Iterator<Item = &Err> {
        self.errors.iter()
    }
    pub fn into_output(self) -> Option<O> {
        self.output
    }
    pub fn into_errors(self) -> Vec<Err> {
        self.errors
    }
    pub fn into_result(self) -> Result<O, Vec<Err>> {
        if self.errors.is_empty() {
            self.output.ok_or(self.errors)
        } else {
            Err(self.errors)
        }
    }
}

pub trait Parser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
    #[doc(hidden)]
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail>;
    #[doc(hidden)]
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail>;

    fn parse(&self, input: I) -> ParseResult<O, E::Error>
    where
        Self: Sized,
    {
        let mut inp = InputRef { input: &input, at: 0, _p: PhantomData };
        match self.go(&mut inp) {
            Ok(v) if inp.peek_maybe().is_none() => ParseResult { output: Some(v), errors: vec![] },
            _ => ParseResult { output: None, errors: vec![inp.error()] },
        }
    }
    fn map<U, F: Fn(O) -> U>(self, f: F) -> combinator::Map<Self, O, F>
    where
        Self: Sized,
    {
        combinator::Map(self, f, PhantomData)
    }
    fn map_with_span<U, F: Fn(O, I::Span) -> U>(self, f: F) -> combinator::MapWithSpan<Self, O, F>
    where
        Self: Sized,
    {
        combinator::MapWithSpan(self, f, PhantomData)
    }
    fn then<U, B: Parser<'a, I, U, E>>(self, b: B) -> combinator::Then<Self, B, O, U>
    where
        Self: Sized,
    {
        combinator::Then(self, b, PhantomData)
    }
    fn or<B: Parser<'a, I, O, E>>(self, b: B) -> primitive::Choice<(Self, B)>
    where
        Self: Sized,
    {
        primitive::Choice((self, b))
    }
    fn or_not(self) -> combinator::OrNot<Self>
    where
        Self: Sized,
    {
        combinator::OrNot(self)
    }
    fn repeated(self) -> combinator::Repeated<Self, O>
    where
        Self: Sized,
    {
        combinator::Repeated(self, 0, usize::MAX, PhantomData)
    }
    fn check(&self, input: I) -> ParseResult<(), E::Error>
    where
        Self: Sized,
    {
        let mut inp = InputRef { input: &input, at: 0, _p: PhantomData };
        match self.go_check(&mut inp) {
            Ok(()) if inp.peek_maybe().is_none() => ParseResult { output: Some(()), errors: vec![] },
            _ => ParseResult { output: None, errors: vec![inp.error()] },
        }
    }
    fn filter<F: Fn(&O) -> bool>(self, f: F) -> combinator::Filter<Self, O, F>
    where
        Self: Sized,
    {
        combinator::Filter(self, f, PhantomData)
    }
    fn try_map<U, F: Fn(O, I::Span) -> Result<U, E::Error>>(self, f: F) -> combinator::TryMap<Self, O, F>
    where
        Self: Sized,
    {
        combinator::TryMap(self, f, PhantomData)
    }
    fn to<U: Clone>(self, to: U) -> combinator::To<Self, O, U>
    where
        Self: Sized,
    {
        combinator::To(self, to, PhantomData)
    }
    fn ignored(self) -> combinator::To<Self, O, ()>
    where
        Self: Sized,
    {
        combinator::To(self, (), PhantomData)
    }
    fn ignore_then<U, B: Parser<'a, I, U, E>>(self, b: B) -> combinator::IgnoreThen<Self, B, O>
    where
        Self: Sized,
    {
        combinator::IgnoreThen(self, b, PhantomData)
    }
    fn then_ignore<U, B: Parser<'a, I, U, E>>(self, b: B) -> combinator::ThenIgnore<Self, B, U>
    where
        Self: Sized,
    {
        combinator::ThenIgnore(self, b, PhantomData)
    }
    fn delimited_by<U, V, B: Parser<'a, I, U, E>, C: Parser<'a, I, V, E>>(self, start: B, end: C) -> combinator::DelimitedBy<Self, B, C, U, V>
    where
        Self: Sized,
    {
        combinator::DelimitedBy(self, start, end, PhantomData)
    }
    fn padded_by<U, B: Parser<'a, I, U, E>>(self, padding: B) -> combinator::PaddedBy<Self, B, U>
    where
        Self: Sized,
    {
        combinator::PaddedBy(self, padding, PhantomData)
    }
    fn rewind(self) -> combinator::Rewind<Self>
    where
        Self: Sized,
    {
        combinator::Rewind(self)
    }
    fn not(self) -> combinator::Not<Self, O>
    where
        Self: Sized,
    {
        combinator::Not(self, PhantomData)
    }
    fn and_is<U, B: Parser<'a, I, U, E>>(self, b: B) -> combinator::AndIs<Self, B, U>
    where
        Self: Sized,
    {
        combinator::AndIs(self, b, PhantomData)
    }
    fn separated_by<U, B: Parser<'a, I, U, E>>(self, separator: B) -> combinator::SeparatedBy<Self, B, O, U>
    where
        Self: Sized,
    {
        combinator::SeparatedBy(self, separator, 0, usize::MAX, false, false, PhantomData)
    }
    fn foldl<B, F, OB>(self, other: B, f: F) -> combinator::Foldl<F, Self, B, OB>
    where
        F: Fn(O, OB) -> O,
        B: IterParser<'a, I, OB, E>,
        Self: Sized,
    {
        combinator::Foldl(self, other, f, PhantomData)
    }
    fn map_err<F: Fn(E::Error) -> E::Error>(self, _: F) -> Self
    where
        Self: Sized,
    {
        self
    }
    fn labelled<L>(self, _: L) -> Self
    where
        Self: Sized,
    {
        self
    }
    fn with_ctx(self, _: ()) -> Self
    where
        Self: Sized,
    {
        self
    }
    fn boxed<'b>(self) -> Boxed<'a, 'b, I, O, E>
    where
        Self: Sized + 'b,
    {
        Boxed(Rc::new(self))
    }
}

impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: Parser<'a, I, O, E>> Parser<'a, I, O, E> for &P {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
        (**self).go(inp)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
        (**self).go_check(inp)
    }
}

macro_rules! pointer {
    ($($t:ident)*) => {$(
        impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: Parser<'a, I, O, E> + ?Sized> Parser<'a, I, O, E> for $t<P> {
            fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
                (**self).go(inp)
            }
            fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
                (**self).go_check(inp)
            }
        }
    )*};
}
pointer!(Rc Box);

pub trait IterParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
    #[doc(hidden)]
    fn each(&self, inp: &mut InputRef<'a, '_, I, E>, f: &mut dyn FnMut(O)) -> Result<(), Fail>;
    #[doc(hidden)]
    fn each_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail>;
    fn collect<C: Default + Extend<O>>(self) -> combinator::Collect<Self, O, C>
    where
        Self: Sized,
    {
        combinator::Collect(self, PhantomData)
    }
    fn count(self) -> combinator::Count<Self, O>
    where
        Self: Sized,
    {
        combinator::Count(self, PhantomData)
    }
    fn foldr<B, F, OA>(self, other: B, f: F) -> combinator::Foldr<F, Self, B, O>
    where
        F: Fn(O, OA) -> OA,
        B: Parser<'a, I, OA, E>,
        Self: Sized,
    {
        combinator::Foldr(self, other, f, PhantomData)
    }
}

pub struct Boxed<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>>(Rc<dyn Parser<'a, I, O, E> + 'b>);
impl<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> Clone for Boxed<'a, 'b, I, O, E> {
    fn clone(&self) -> Self {
        Boxed(self.0.clone())
    }
}
impl<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> Parser<'a, I, O, E> for Boxed<'a, 'b, I, O, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
        self.0.go(inp)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
        self.0.go_check(inp)
    }
}

pub mod combinator {
    use super::*;

    pub struct Map<A, OA, F>(pub(crate) A, pub(crate) F, pub(crate) PhantomData<fn(OA)>);
    impl<A: Clone, OA, F: Clone> Clone for Map<A, OA, F> {
        fn clone(&self) -> Self {
            Map(self.0.clone(), self.1.clone(), PhantomData)
        }
    }
    impl<A: Copy, OA, F: Copy> Copy for Map<A, OA, F> {}
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, OA, A: Parser<'a, I, OA, E>, F: Fn(OA) -> O> Parser<'a, I, O, E> for Map<A, OA, F> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            Ok((self.1)(self.0.go(inp)?))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.go_check(inp)
        }
    }

    pub struct MapWithSpan<A, OA, F>(pub(crate) A, pub(crate) F, pub(crate) PhantomData<fn(OA)>);
    impl<A: Clone, OA, F: Clone> Clone for MapWithSpan<A, OA, F> {
        fn clone(&self) -> Self {
            MapWithSpan(self.0.clone(), self.1.clone(), PhantomData)
        }
    }
    impl<A: Copy, OA, F: Copy> Copy for MapWithSpan<A, OA, F> {}
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, OA, A: Parser<'a, I, OA, E>, F: Fn(OA, I::Span) -> O> Parser<'a, I, O, E> for MapWithSpan<A, OA, F> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let before = inp.offset();
            let v = self.0.go(inp)?;
            let span = inp.span_since(before);
            Ok((self.1)(v, span))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.go_check(inp)
        }
    }

    pub struct Then<A, B, OA, OB>(pub(crate) A, pub(crate) B, pub(crate) PhantomData<fn(OA, OB)>);
    impl<A: Clone, B: Clone, OA, OB> Clone for Then<A, B, OA, OB> {
        fn clone(&self) -> Self {
            Then(self.0.clone(), self.1.clone(), PhantomData)
        }
    }
    impl<A: Copy, B: Copy, OA, OB> Copy for Then<A, B, OA, OB> {}
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, OA, OB, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>> Parser<'a, I, (OA, OB), E> for Then<A, B, OA, OB> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(OA, OB), Fail> {
            let a = self.0.go(inp)?;
            let b = self.1.go(inp)?;
            Ok((a, b))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.go_check(inp)?;
            self.1.go_check(inp)
        }
    }

    #[derive(Clone, Copy)]
    pub struct OrNot<A>(pub(crate) A);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, Option<O>, E> for OrNot<A> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<Option<O>, Fail> {
            let before = inp.save();
            match self.0.go(inp) {
                Ok(v) => Ok(Some(v)),
                Err(_) => {
                    inp.rewind(before);
                    Ok(None)
                }
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            let before = inp.save();
            if self.0.go_check(inp).is_err() {
                inp.rewind(before);
            }
            Ok(())
        }
    }

    /// (parser, at least, at most)
    pub struct Repeated<A, OA>(pub(crate) A, pub(crate) usize, pub(crate) usize, pub(crate) PhantomData<fn(OA)>);
    impl<A: Clone, OA> Clone for Repeated<A, OA> {
        fn clone(&self) -> Self {
            Repeated(self.0.clone(), self.1, self.2, PhantomData)
        }
    }
    impl<A: Copy, OA> Copy for Repeated<A, OA> {}
    impl<A, OA> Repeated<A, OA> {
        pub fn at_least(self, n: usize) -> Self {
            Repeated(self.0, n, self.2, PhantomData)
        }
        pub fn at_most(self, n: usize) -> Self {
            Repeated(self.0, self.1, n, PhantomData)
        }
        pub fn exactly(self, n: usize) -> Self {
            Repeated(self.0, n, n, PhantomData)
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> IterParser<'a, I, O, E> for Repeated<A, O> {
        fn each(&self, inp: &mut InputRef<'a, '_, I, E>, f: &mut dyn FnMut(O)) -> Result<(), Fail> {
            let mut n = 0;
            while n < self.2 {
                let before = inp.save();
                match self.0.go(inp) {
                    Ok(v) => f(v),
                    Err(_) => {
                        inp.rewind(before);
                        return if n >= self.1 { Ok(()) } else { Err(Fail) };
                    }
                }
                n += 1;
            }
            Ok(())
        }
        fn each_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            let mut n = 0;
            while n < self.2 {
                let before = inp.save();
                if self.0.go_check(inp).is_err() {
                    inp.rewind(before);
                    return if n >= self.1 { Ok(()) } else { Err(Fail) };
                }
                n += 1;
            }
            Ok(())
        }
    }
    /// As in chumsky, a repetition is also a parser of nothing.
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, (), E> for Repeated<A, O> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.each(inp, &mut |_| ())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.each_check(inp)
        }
    }

    pub struct Collect<A, OA, C>(pub(crate) A, pub(crate) PhantomData<fn(OA) -> C>);
    impl<A: Clone, OA, C> Clone for Collect<A, OA, C> {
        fn clone(&self) -> Self {
            Collect(self.0.clone(), PhantomData)
        }
    }
    impl<A: Copy, OA, C> Copy for Collect<A, OA, C> {}
    impl<'a, I: Input<'a>, OA, E: ParserExtra<'a, I>, A: IterParser<'a, I, OA, E>, C: Default + Extend<OA>> Parser<'a, I, C, E> for Collect<A, OA, C> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<C, Fail> {
            let mut c = C::default();
            self.0.each(inp, &mut |v| c.extend(Some(v)))?;
            Ok(c)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.each_check(inp)
        }
    }

    macro_rules! clones {
        ($name:ident < $($p:ident),* | $($q:ident),* > $($n:tt)*) => {
            impl<$($p: Clone,)* $($q),*> Clone for $name<$($p,)* $($q),*> {
                fn clone(&self) -> Self {
                    $name($(self.$n.clone(),)* PhantomData)
                }
            }
            impl<$($p: Copy,)* $($q),*> Copy for $name<$($p,)* $($q),*> {}
        };
    }

    pub struct Filter<A, O, F>(pub(crate) A, pub(crate) F, pub(crate) PhantomData<fn(O)>);
    impl<A: Clone, O, F: Clone> Clone for Filter<A, O, F> {
        fn clone(&self) -> Self {
            Filter(self.0.clone(), self.1.clone(), PhantomData)
        }
    }
    impl<A: Copy, O, F: Copy> Copy for Filter<A, O, F> {}
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, F: Fn(&O) -> bool> Parser<'a, I, O, E> for Filter<A, O, F> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let v = self.0.go(inp)?;
            if (self.1)(&v) { Ok(v) } else { Err(Fail) }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.go(inp).map(|_| ())
        }
    }

    pub struct TryMap<A, O, F>(pub(crate) A, pub(crate) F, pub(crate) PhantomData<fn(O)>);
    impl<A: Clone, O, F: Clone> Clone for TryMap<A, O, F> {
        fn clone(&self) -> Self {
            TryMap(self.0.clone(), self.1.clone(), PhantomData)
        }
    }
    impl<A: Copy, O, F: Copy> Copy for TryMap<A, O, F> {}
    impl<'a, I: Input<'a>, O, U, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, F: Fn(O, I::Span) -> Result<U, E::Error>> Parser<'a, I, U, E> for TryMap<A, O, F> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<U, Fail> {
            let before = inp.offset();
            let v = self.0.go(inp)?;
            let span = inp.span_since(before);
            (self.1)(v, span).map_err(|_| Fail)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.go(inp).map(|_| ())
        }
    }

    pub struct To<A, O, U>(pub(crate) A, pub(crate) U, pub(crate) PhantomData<fn(O)>);
    impl<A: Clone, O, U: Clone> Clone for To<A, O, U> {
        fn clone(&self) -> Self {
            To(self.0.clone(), self.1.clone(), PhantomData)
        }
    }
    impl<A: Copy, O, U: Copy> Copy for To<A, O, U> {}
    impl<'a, I: Input<'a>, O, U: Clone, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, U, E> for To<A, O, U> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<U, Fail> {
            self.0.go_check(inp)?;
            Ok(self.1.clone())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.go_check(inp)
        }
    }

    pub struct IgnoreThen<A, B, OA>(pub(crate) A, pub(crate) B, pub(crate) PhantomData<fn(OA)>);
    clones!(IgnoreThen<A, B | OA> 0 1);
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, OA, OB, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>> Parser<'a, I, OB, E> for IgnoreThen<A, B, OA> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<OB, Fail> {
            self.0.go_check(inp)?;
            self.1.go(inp)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.go_check(inp)?;
            self.1.go_check(inp)
        }
    }

    pub struct ThenIgnore<A, B, OB>(pub(crate) A, pub(crate) B, pub(crate) PhantomData<fn(OB)>);
    clones!(ThenIgnore<A, B | OB> 0 1);
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, OA, OB, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>> Parser<'a, I, OA, E> for ThenIgnore<A, B, OB> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<OA, Fail> {
            let v = self.0.go(inp)?;
            self.1.go_check(inp)?;
            Ok(v)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.go_check(inp)?;
            self.1.go_check(inp)
        }
    }

    pub struct DelimitedBy<A, B, C, OB, OC>(pub(crate) A, pub(crate) B, pub(crate) C, pub(crate) PhantomData<fn(OB, OC)>);
    clones!(DelimitedBy<A, B, C | OB, OC> 0 1 2);
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, OA, OB, OC, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>, C: Parser<'a, I, OC, E>> Parser<'a, I, OA, E> for DelimitedBy<A, B, C, OB, OC> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<OA, Fail> {
            self.1.go_check(inp)?;
            let v = self.0.go(inp)?;
            self.2.go_check(inp)?;
            Ok(v)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.1.go_check(inp)?;
            self.0.go_check(inp)?;
            self.2.go_check(inp)
        }
    }

    pub struct PaddedBy<A, B, OB>(pub(crate) A, pub(crate) B, pub(crate) PhantomData<fn(OB)>);
    clones!(PaddedBy<A, B | OB> 0 1);
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, OA, OB, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>> Parser<'a, I, OA, E> for PaddedBy<A, B, OB> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<OA, Fail> {
            self.1.go_check(inp)?;
            let v = self.0.go(inp)?;
            self.1.go_check(inp)?;
            Ok(v)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.1.go_check(inp)?;
            self.0.go_check(inp)?;
            self.1.go_check(inp)
        }
    }

    #[derive(Clone, Copy)]
    pub struct Rewind<A>(pub(crate) A);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, O, E> for Rewind<A> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let before = inp.save();
            let v = self.0.go(inp)?;
            inp.rewind(before);
            Ok(v)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            let before = inp.save();
            self.0.go_check(inp)?;
            inp.rewind(before);
            Ok(())
        }
    }

    pub struct Not<A, OA>(pub(crate) A, pub(crate) PhantomData<fn(OA)>);
    clones!(Not<A | OA> 0);
    impl<'a, I: Input<'a>, OA, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>> Parser<'a, I, (), E> for Not<A, OA> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            let before = inp.save();
            let r = self.0.go_check(inp);
            inp.rewind(before);
            if r.is_err() { Ok(()) } else { Err(Fail) }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.go(inp)
        }
    }

    pub struct AndIs<A, B, OB>(pub(crate) A, pub(crate) B, pub(crate) PhantomData<fn(OB)>);
    clones!(AndIs<A, B | OB> 0 1);
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, OA, OB, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>> Parser<'a, I, OA, E> for AndIs<A, B, OB> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<OA, Fail> {
            let before = inp.save();
            let v = self.0.go(inp)?;
            let after = inp.save();
            inp.rewind(before);
            self.1.go_check(inp)?;
            inp.rewind(after);
            Ok(v)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            let before = inp.save();
            self.0.go_check(inp)?;
            let after = inp.save();
            inp.rewind(before);
            self.1.go_check(inp)?;
            inp.rewind(after);
            Ok(())
        }
    }

    /// (item, separator, at least, at most, leading, trailing)
    pub struct SeparatedBy<A, B, OA, OB>(pub(crate) A, pub(crate) B, pub(crate) usize, pub(crate) usize, pub(crate) bool, pub(crate) bool, pub(crate) PhantomData<fn(OA, OB)>);
    clones!(SeparatedBy<A, B | OA, OB> 0 1 2 3 4 5);
    impl<A, B, OA, OB> SeparatedBy<A, B, OA, OB> {
        pub fn at_least(mut self, n: usize) -> Self {
            self.2 = n;
            self
        }
        pub fn at_most(mut self, n: usize) -> Self {
            self.3 = n;
            self
        }
        pub fn exactly(mut self, n: usize) -> Self {
            self.2 = n;
            self.3 = n;
            self
        }
        pub fn allow_leading(mut self) -> Self {
            self.4 = true;
            self
        }
        pub fn allow_trailing(mut self) -> Self {
            self.5 = true;
            self
        }
        fn run<'a, I: Input<'a>, E: ParserExtra<'a, I>>(&self, inp: &mut InputRef<'a, '_, I, E>, item: &mut dyn FnMut(&mut InputRef<'a, '_, I, E>) -> bool) -> Result<(), Fail>
        where
            B: Parser<'a, I, OB, E>,
        {
            let mut n = 0;
            let start = inp.save();
            if self.4 && self.1.go_check(inp).is_err() {
                inp.rewind(start);
            }
            while n < self.3 {
                let before = inp.save();
                if n > 0 && self.1.go_check(inp).is_err() {
                    inp.rewind(before);
                    break;
                }
                let behind = inp.save();
                if !item(inp) {
                    inp.rewind(if self.5 && n > 0 { behind } else { before });
                    return if n >= self.2 { Ok(()) } else { Err(Fail) };
                }
                n += 1;
            }
            if n < self.2 {
                return Err(Fail);
            }
            if self.5 && n > 0 {
                let before = inp.save();
                if self.1.go_check(inp).is_err() {
                    inp.rewind(before);
                }
            }
            Ok(())
        }
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, OA, OB, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>> IterParser<'a, I, OA, E> for SeparatedBy<A, B, OA, OB> {
        fn each(&self, inp: &mut InputRef<'a, '_, I, E>, f: &mut dyn FnMut(OA)) -> Result<(), Fail> {
            self.run(inp, &mut |inp| match self.0.go(inp) {
                Ok(v) => {
                    f(v);
                    true
                }
                Err(_) => false,
            })
        }
        fn each_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.run(inp, &mut |inp| self.0.go_check(inp).is_ok())
        }
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, OA, OB, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>> Parser<'a, I, (), E> for SeparatedBy<A, B, OA, OB> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.each(inp, &mut |_| ())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.each_check(inp)
        }
    }

    pub struct Foldl<F, A, B, OB>(pub(crate) A, pub(crate) B, pub(crate) F, pub(crate) PhantomData<fn(OB)>);
    impl<F: Clone, A: Clone, B: Clone, OB> Clone for Foldl<F, A, B, OB> {
        fn clone(&self) -> Self {
            Foldl(self.0.clone(), self.1.clone(), self.2.clone(), PhantomData)
        }
    }
    impl<F: Copy, A: Copy, B: Copy, OB> Copy for Foldl<F, A, B, OB> {}
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, O, OB, A: Parser<'a, I, O, E>, B: IterParser<'a, I, OB, E>, F: Fn(O, OB) -> O> Parser<'a, I, O, E> for Foldl<F, A, B, OB> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let mut v = Some(self.0.go(inp)?);
            self.1.each(inp, &mut |b| v = v.take().map(|a| (self.2)(a, b)))?;
            v.ok_or(Fail)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.go_check(inp)?;
            self.1.each_check(inp)
        }
    }

    pub struct Foldr<F, A, B, OA>(pub(crate) A, pub(crate) B, pub(crate) F, pub(crate) PhantomData<fn(OA)>);
    impl<F: Clone, A: Clone, B: Clone, OA> Clone for Foldr<F, A, B, OA> {
        fn clone(&self) -> Self {
            Foldr(self.0.clone(), self.1.clone(), self.2.clone(), PhantomData)
        }
    }
    impl<F: Copy, A: Copy, B: Copy, OA> Copy for Foldr<F, A, B, OA> {}
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, O, OA, A: IterParser<'a, I, OA, E>, B: Parser<'a, I, O, E>, F: Fn(OA, O) -> O> Parser<'a, I, O, E> for Foldr<F, A, B, OA> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let mut all = vec![];
            self.0.each(inp, &mut |a| all.push(a))?;
            let mut v = self.1.go(inp)?;
            while let Some(a) = all.pop() {
                v = (self.2)(a, v);
            }
            Ok(v)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.each_check(inp)?;
            self.1.go_check(inp)
        }
    }

    pub struct Count<A, OA>(pub(crate) A, pub(crate) PhantomData<fn(OA)>);
    clones!(Count<A | OA> 0);
    impl<'a, I: Input<'a>, OA, E: ParserExtra<'a, I>, A: IterParser<'a, I, OA, E>> Parser<'a, I, usize, E> for Count<A, OA> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<usize, Fail> {
            let mut n = 0;
            self.0.each(inp, &mut |_| n += 1)?;
            Ok(n)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.each_check(inp)
        }
    }
}

pub mod primitive {
    use super::*;

    #[derive(Clone, Copy)]
    pub struct End;
    pub fn end() -> End {
        End
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, (), E> for End {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            if inp.token().is_none() { Ok(()) } else { Err(Fail) }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            Parser::<'a, I, (), E>::go(self, inp)
        }
    }

    pub trait OrderedSeq<T>: Clone {
        fn all(&self, f: &mut dyn FnMut(&T) -> bool) -> bool;
    }
    impl<T: Clone> OrderedSeq<T> for T {
        fn all(&self, f: &mut dyn FnMut(&T) -> bool) -> bool {
            f(self)
        }
    }
    impl<T: Clone> OrderedSeq<T> for Vec<T> {
        fn all(&self, f: &mut dyn FnMut(&T) -> bool) -> bool {
            for t in self {
                if !f(t) {
                    return false;
                }
            }
            true
        }
    }
    impl<T: Clone, const N: usize> OrderedSeq<T> for [T; N] {
        fn all(&self, f: &mut dyn FnMut(&T) -> bool) -> bool {
            for t in self {
                if !f(t) {
                    return false;
                }
            }
            true
        }
    }
    pub struct Just<S, I, E>(S, PhantomData<fn(I, E)>);
    impl<S: Clone, I, E> Clone for Just<S, I, E> {
        fn clone(&self) -> Self {
            Just(self.0.clone(), PhantomData)
        }
    }
    impl<S: Copy, I, E> Copy for Just<S, I, E> {}
    pub fn just<'a, S, I, E>(seq: S) -> Just<S, I, E>
    where
        I: Input<'a>,
        I::Token: PartialEq,
        E: ParserExtra<'a, I>,
        S: OrderedSeq<I::Token>,
    {
        Just(seq, PhantomData)
    }
    impl<'a, I: Input<'a>, S: OrderedSeq<I::Token>, E: ParserExtra<'a, I>> Parser<'a, I, S, E> for Just<S, I, E>
    where
        I::Token: PartialEq,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<S, Fail> {
            Parser::<'a, I, S, E>::go_check(self, inp)?;
            Ok(self.0.clone())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            if self.0.all(&mut |t| inp.token() == Some(t)) { Ok(()) } else { Err(Fail) }
        }
    }

    pub struct Select<F, I, O, E>(F, PhantomData<fn(I, E) -> O>);
    impl<F: Clone, I, O, E> Clone for Select<F, I, O, E> {
        fn clone(&self) -> Self {
            Select(self.0.clone(), PhantomData)
        }
    }
    impl<F: Copy, I, O, E> Copy for Select<F, I, O, E> {}
    pub fn select<'a, F, I, O, E>(f: F) -> Select<F, I, O, E>
    where
        I: Input<'a>,
        I::Token: Clone,
        E: ParserExtra<'a, I>,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        Select(f, PhantomData)
    }
    impl<'a, F, I, O, E> Parser<'a, I, O, E> for Select<F, I, O, E>
    where
        I: Input<'a>,
        I::Token: Clone,
        E: ParserExtra<'a, I>,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let before = inp.offset();
            match inp.token() {
                Some(t) => {
                    let span = inp.span_since(before);
                    (self.0)(t.clone(), span).ok_or(Fail)
                }
                None => Err(Fail),
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.go(inp).map(|_| ())
        }
    }

    pub struct SelectRef<F, I, O, E>(F, PhantomData<fn(I, E) -> O>);
    impl<F: Clone, I, O, E> Clone for SelectRef<F, I, O, E> {
        fn clone(&self) -> Self {
            SelectRef(self.0.clone(), PhantomData)
        }
    }
    impl<F: Copy, I, O, E> Copy for SelectRef<F, I, O, E> {}
    pub fn select_ref<'a, F, I, O, E>(f: F) -> SelectRef<F, I, O, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        SelectRef(f, PhantomData)
    }
    impl<'a, F, I, O, E> Parser<'a, I, O, E> for SelectRef<F, I, O, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let before = inp.offset();
            match inp.token() {
                Some(t) => {
                    let span = inp.span_since(before);
                    (self.0)(t, span).ok_or(Fail)
                }
                None => Err(Fail),
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.go(inp).map(|_| ())
        }
    }

    #[derive(Clone, Copy)]
    pub struct Choice<T>(pub(crate) T);
    pub fn choice<T>(parsers: T) -> Choice<T> {
        Choice(parsers)
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, O, E> for Choice<Vec<A>> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let before = inp.save();
            for p in &self.0 {
                if let Ok(v) = p.go(inp) {
                    return Ok(v);
                }
                inp.rewind(before);
            }
            Err(Fail)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            let before = inp.save();
            for p in &self.0 {
                if p.go_check(inp).is_ok() {
                    return Ok(());
                }
                inp.rewind(before);
            }
            Err(Fail)
        }
    }

    macro_rules! one {
        ($name:ident, $make:ident, $what:expr) => {
            pub struct $name<S, I, E>(S, PhantomData<fn(I, E)>);
            impl<S: Clone, I, E> Clone for $name<S, I, E> {
                fn clone(&self) -> Self {
                    $name(self.0.clone(), PhantomData)
                }
            }
            impl<S: Copy, I, E> Copy for $name<S, I, E> {}
            pub fn $make<'a, S, I, E>(seq: S) -> $name<S, I, E>
            where
                I: Input<'a>,
                I::Token: PartialEq + Clone,
                E: ParserExtra<'a, I>,
                S: Seq<I::Token>,
            {
                $name(seq, PhantomData)
            }
            impl<'a, I: Input<'a>, S: Seq<I::Token>, E: ParserExtra<'a, I>> Parser<'a, I, I::Token, E> for $name<S, I, E>
            where
                I::Token: PartialEq + Clone,
            {
                fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<I::Token, Fail> {
                    match inp.token() {
                        Some(t) if self.0.has(t) == $what => Ok(t.clone()),
                        _ => Err(Fail),
                    }
                }
                fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
                    match inp.token() {
                        Some(t) if self.0.has(t) == $what => Ok(()),
                        _ => Err(Fail),
                    }
                }
            }
        };
    }
    pub trait Seq<T> {
        fn has(&self, t: &T) -> bool;
    }
    impl<T: PartialEq> Seq<T> for T {
        fn has(&self, t: &T) -> bool {
            self == t
        }
    }
    impl<T: PartialEq> Seq<T> for Vec<T> {
        fn has(&self, t: &T) -> bool {
            self.iter().any(|x| x == t)
        }
    }
    impl<T: PartialEq, const N: usize> Seq<T> for [T; N] {
        fn has(&self, t: &T) -> bool {
            self.iter().any(|x| x == t)
        }
    }
    impl<'b, T: PartialEq> Seq<T> for &'b [T] {
        fn has(&self, t: &T) -> bool {
            self.iter().any(|x| x == t)
        }
    }
    one!(OneOf, one_of, true);
    one!(NoneOf, none_of, false);

    pub struct Any<I, E>(PhantomData<fn(I, E)>);
    impl<I, E> Clone for Any<I, E> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<I, E> Copy for Any<I, E> {}
    pub fn any<'a, I: Input<'a>, E: ParserExtra<'a, I>>() -> Any<I, E> {
        Any(PhantomData)
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, I::Token, E> for Any<I, E>
    where
        I::Token: Clone,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<I::Token, Fail> {
            inp.token().cloned().ok_or(Fail)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            inp.token().map(|_| ()).ok_or(Fail)
        }
    }
    pub struct AnyRef<I, E>(PhantomData<fn(I, E)>);
    impl<I, E> Clone for AnyRef<I, E> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<I, E> Copy for AnyRef<I, E> {}
    pub fn any_ref<'a, I: Input<'a>, E: ParserExtra<'a, I>>() -> AnyRef<I, E> {
        AnyRef(PhantomData)
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, &'a I::Token, E> for AnyRef<I, E> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<&'a I::Token, Fail> {
            inp.token().ok_or(Fail)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            inp.token().map(|_| ()).ok_or(Fail)
        }
    }
    pub struct Empty<I>(PhantomData<fn(I)>);
    impl<I> Clone for Empty<I> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<I> Copy for Empty<I> {}
    pub fn empty<I>() -> Empty<I> {
        Empty(PhantomData)
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, (), E> for Empty<I> {
        fn go(&self, _: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            Ok(())
        }
        fn go_check(&self, _: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            Ok(())
        }
    }
    pub struct Custom<F, I, O, E>(F, PhantomData<fn(I, E) -> O>);
    impl<F: Clone, I, O, E> Clone for Custom<F, I, O, E> {
        fn clone(&self) -> Self {
            Custom(self.0.clone(), PhantomData)
        }
    }
    impl<F: Copy, I, O, E> Copy for Custom<F, I, O, E> {}
    pub fn custom<'a, F, I, O, E>(f: F) -> Custom<F, I, O, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(&mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>,
    {
        Custom(f, PhantomData)
    }
    impl<'a, F, I: Input<'a>, O, E: ParserExtra<'a, I>> Parser<'a, I, O, E> for Custom<F, I, O, E>
    where
        F: Fn(&mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            (self.0)(inp).map_err(|_| Fail)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.go(inp).map(|_| ())
        }
    }

    macro_rules! choices {
        ($($n:tt $t:ident)*) => {
            impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, $($t: Parser<'a, I, O, E>),*> Parser<'a, I, O, E> for Choice<($($t,)*)> {
                fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
                    let before = inp.save();
                    $(
                        if let Ok(v) = self.0.$n.go(inp) {
                            return Ok(v);
                        }
                        inp.rewind(before);
                    )*
                    Err(Fail)
                }
                fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
                    let before = inp.save();
                    $(
                        if self.0.$n.go_check(inp).is_ok() {
                            return Ok(());
                        }
                        inp.rewind(before);
                    )*
                    Err(Fail)
                }
            }
        };
    }
    choices!(0 A0);
    choices!(0 A0 1 A1);
    choices!(0 A0 1 A1 2 A2);
    choices!(0 A0 1 A1 2 A2 3 A3);
    choices!(0 A0 1 A1 2 A2 3 A3 4 A4);
    choices!(0 A0 1 A1 2 A2 3 A3 4 A4 5 A5);
    choices!(0 A0 1 A1 2 A2 3 A3 4 A4 5 A5 6 A6);
    choices!(0 A0 1 A1 2 A2 3 A3 4 A4 5 A5 6 A6 7 A7);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, const N: usize> Parser<'a, I, O, E> for Choice<[A; N]> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let before = inp.save();
            for p in &self.0 {
                if let Ok(v) = p.go(inp) {
                    return Ok(v);
                }
                inp.rewind(before);
            }
            Err(Fail)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            let before = inp.save();
            for p in &self.0 {
                if p.go_check(inp).is_ok() {
                    return Ok(());
                }
                inp.rewind(before);
            }
            Err(Fail)
        }
    }
}

pub mod extension {
    pub mod v1 {
        use crate::*;
        pub trait ExtParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
            fn parse(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>;
            fn check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
                self.parse(inp).map(|_| ())
            }
        }
        #[derive(Clone, Copy)]
        pub struct Ext<T: ?Sized>(pub T);
        impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: ExtParser<'a, I, O, E>> Parser<'a, I, O, E> for Ext<P> {
            fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
                self.0.parse(inp).map_err(|_| Fail)
            }
            fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
                self.0.check(inp).map_err(|_| Fail)
            }
        }
    }
}

pub mod cache {
    pub trait Cached {
        type Parser<'src>;
        fn make_parser<'src>(self) -> Self::Parser<'src>;
    }
    pub struct Cache<C: Cached> {
        parser: C::Parser<'static>,
    }
    impl<C: Cached> Cache<C> {
        pub fn new(c: C) -> Self {
            Self { parser: c.make_parser() }
        }
        pub fn get<'src>(&self) -> &C::Parser<'src> {
            // as chumsky does: the parser owns no input
            unsafe { &*(&self.parser as *const C::Parser<'static>).cast() }
        }
    }
}

#[macro_export]
macro_rules! select {
    ($($p:pat $(if $guard:expr)? => $out:expr),+ $(,)?) => {
        $crate::primitive::select(move |x, _| match x {
            $($p $(if $guard)? => ::core::option::Option::Some($out),)+
            _ => ::core::option::Option::None,
        })
    };
}
#[macro_export]
macro_rules! select_ref {
    ($($p:pat $(if $guard:expr)? => $out:expr),+ $(,)?) => {
        $crate::primitive::select_ref(move |x, _| match x {
            $($p $(if $guard)? => ::core::option::Option::Some($out),)+
            _ => ::core::option::Option::None,
        })
    };
}

pub mod prelude {
    pub use crate::{
        error::Error,
        extra,
        input::Input,
        primitive::{any, choice, custom, empty, end, just, none_of, one_of},
        select, select_ref,
        span::SimpleSpan,
        Boxed, IterParser, Parser,
    };
}
