//! A stand-in for the part of `chumsky` (1.0 alpha, a git dependency that is not available offline)
//! which the `parser` crate uses: the same combinators with the documented meaning. Failure carries no
//! expectations. As in chumsky, checking a parser does not run its `map` closures.
#![allow(clippy::all)]

pub mod util {
    pub enum MaybeRef<'a, T> {
        Ref(&'a T),
        Val(T),
    }
    impl<'a, T> MaybeRef<'a, T> {
        pub fn into_inner(self) -> T
        where
            T: Clone,
        {
            match self {
                MaybeRef::Ref(v) => v.clone(),
                MaybeRef::Val(v) => v,
            }
        }
    }
    impl<'a, T> core::ops::Deref for MaybeRef<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            match self {
                MaybeRef::Ref(v) => v,
                MaybeRef::Val(v) => v,
            }
        }
    }
}

pub mod span {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct SimpleSpan<T = usize> {
        pub start: T,
        pub end: T,
    }
    impl<T> SimpleSpan<T> {
        pub fn into_range(self) -> core::ops::Range<T> {
            self.start..self.end
        }
    }
}

pub mod error {
    use crate::{input::Input, util::MaybeRef};
    pub trait Error<'a, I: Input<'a>>: Sized {
        fn expected_found<E: IntoIterator<Item = Option<MaybeRef<'a, I::Token>>>>(
            expected: E,
            found: Option<MaybeRef<'a, I::Token>>,
            span: I::Span,
        ) -> Self;
    }
}

pub mod extra {
    use crate::{error::Error, input::Input};
    pub trait ParserExtra<'a, I: Input<'a>>: 'a {
        type Error: Error<'a, I> + 'a;
    }
    pub struct Full<E, S, C>(core::marker::PhantomData<(E, S, C)>);
    impl<'a, I: Input<'a>, E: Error<'a, I> + 'a, S: 'a, C: 'a> ParserExtra<'a, I> for Full<E, S, C> {
        type Error = E;
    }
}

pub mod input {
    use crate::{error::Error, extra::ParserExtra, span::SimpleSpan, util::MaybeRef, Parser};
    use core::marker::PhantomData;

    pub trait Input<'a>: 'a {
        type Token: 'a;
        type Span;
        fn get(&self, at: usize) -> Option<&'a Self::Token>;
        fn span(&self, from: usize, to: usize) -> Self::Span;
    }
    impl<'a, T: 'a> Input<'a> for &'a [T] {
        type Token = T;
        type Span = SimpleSpan<usize>;
        fn get(&self, at: usize) -> Option<&'a T> {
            let all: &'a [T] = self;
            all.get(at)
        }
        fn span(&self, from: usize, to: usize) -> Self::Span {
            SimpleSpan { start: from, end: to }
        }
    }

    #[derive(Clone, Copy)]
    pub struct Marker(pub(crate) usize);
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Offset(pub(crate) usize);

    pub struct InputRef<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> {
        pub(crate) input: &'parse I,
        pub(crate) at: usize,
        pub(crate) _p: PhantomData<(&'a (), E)>,
    }
    impl<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> InputRef<'a, 'parse, I, E> {
        pub fn save(&self) -> Marker {
            Marker(self.at)
        }
        pub fn rewind(&mut self, m: Marker) {
            self.at = m.0;
        }
        pub fn offset(&self) -> Offset {
            Offset(self.at)
        }
        pub fn span_since(&self, before: Offset) -> I::Span {
            self.input.span(before.0, self.at)
        }
        pub(crate) fn token(&mut self) -> Option<&'a I::Token> {
            let t = self.input.get(self.at);
            if t.is_some() {
                self.at += 1;
            }
            t
        }
        pub fn next_maybe(&mut self) -> Option<MaybeRef<'a, I::Token>> {
            self.token().map(MaybeRef::Ref)
        }
        pub fn peek_maybe(&self) -> Option<MaybeRef<'a, I::Token>> {
            self.input.get(self.at).map(MaybeRef::Ref)
        }
        pub(crate) fn error(&self) -> E::Error {
            E::Error::expected_found(None, None, self.input.span(self.at, self.at))
        }
        pub fn parse<O, P: Parser<'a, I, O, E>>(&mut self, p: P) -> Result<O, E::Error> {
            match p.go(self) {
                Ok(v) => Ok(v),
                Err(_) => Err(self.error()),
            }
        }
        pub fn check<O, P: Parser<'a, I, O, E>>(&mut self, p: P) -> Result<(), E::Error> {
            match p.go_check(self) {
                Ok(()) => Ok(()),
                Err(_) => Err(self.error()),
            }
        }
    }
}

use extra::ParserExtra;
use input::{Input, InputRef};
use std::marker::PhantomData;
use std::rc::Rc;

pub struct Fail;
pub struct ParseResult<O, Err> {
    output: Option<O>,
    errors: Vec<Err>,
}
impl<O, Err> ParseResult<O, Err> {
    pub fn into_output_errors(self) -> (Option<O>, Vec<Err>) {
        (self.output, self.errors)
    }
}

pub trait Parser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
    #[doc(hidden)]
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail>;
    #[doc(hidden)]
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail>;

    fn parse(&self, input: I) -> ParseResult<O, E::Error>
    where
        Self: Sized,
    {
        let mut inp = InputRef { input: &input, at: 0, _p: PhantomData };
        match self.go(&mut inp) {
            Ok(v) if inp.peek_maybe().is_none() => ParseResult { output: Some(v), errors: vec![] },
            _ => ParseResult { output: None, errors: vec![inp.error()] },
        }
    }
    fn map<U, F: Fn(O) -> U>(self, f: F) -> combinator::Map<Self, O, F>
    where
        Self: Sized,
    {
        combinator::Map(self, f, PhantomData)
    }
    fn map_with_span<U, F: Fn(O, I::Span) -> U>(self, f: F) -> combinator::MapWithSpan<Self, O, F>
    where
        Self: Sized,
    {
        combinator::MapWithSpan(self, f, PhantomData)
    }
    fn then<U, B: Parser<'a, I, U, E>>(self, b: B) -> combinator::Then<Self, B, O, U>
    where
        Self: Sized,
    {
        combinator::Then(self, b, PhantomData)
    }
    fn or<B: Parser<'a, I, O, E>>(self, b: B) -> primitive::Choice<(Self, B)>
    where
        Self: Sized,
    {
        primitive::Choice((self, b))
    }
    fn or_not(self) -> combinator::OrNot<Self>
    where
        Self: Sized,
    {
        combinator::OrNot(self)
    }
    fn repeated(self) -> combinator::Repeated<Self, O>
    where
        Self: Sized,
    {
        combinator::Repeated(self, 0, PhantomData)
    }
    fn with_ctx(self, _: ()) -> Self
    where
        Self: Sized,
    {
        self
    }
    fn boxed<'b>(self) -> Boxed<'a, 'b, I, O, E>
    where
        Self: Sized + 'b,
    {
        Boxed(Rc::new(self))
    }
}

impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: Parser<'a, I, O, E>> Parser<'a, I, O, E> for &P {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
        (**self).go(inp)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
        (**self).go_check(inp)
    }
}

pub trait IterParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
    #[doc(hidden)]
    fn each(&self, inp: &mut InputRef<'a, '_, I, E>, f: &mut dyn FnMut(O)) -> Result<(), Fail>;
    #[doc(hidden)]
    fn each_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail>;
    fn collect<C: Default + Extend<O>>(self) -> combinator::Collect<Self, O, C>
    where
        Self: Sized,
    {
        combinator::Collect(self, PhantomData)
    }
}

pub struct Boxed<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>>(Rc<dyn Parser<'a, I, O, E> + 'b>);
impl<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> Clone for Boxed<'a, 'b, I, O, E> {
    fn clone(&self) -> Self {
        Boxed(self.0.clone())
    }
}
impl<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> Parser<'a, I, O, E> for Boxed<'a, 'b, I, O, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
        self.0.go(inp)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
        self.0.go_check(inp)
    }
}

pub mod combinator {
    use super::*;

    pub struct Map<A, OA, F>(pub(crate) A, pub(crate) F, pub(crate) PhantomData<fn(OA)>);
    impl<A: Clone, OA, F: Clone> Clone for Map<A, OA, F> {
        fn clone(&self) -> Self {
            Map(self.0.clone(), self.1.clone(), PhantomData)
        }
    }
    impl<A: Copy, OA, F: Copy> Copy for Map<A, OA, F> {}
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, OA, A: Parser<'a, I, OA, E>, F: Fn(OA) -> O> Parser<'a, I, O, E> for Map<A, OA, F> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            Ok((self.1)(self.0.go(inp)?))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.go_check(inp)
        }
    }

    pub struct MapWithSpan<A, OA, F>(pub(crate) A, pub(crate) F, pub(crate) PhantomData<fn(OA)>);
    impl<A: Clone, OA, F: Clone> Clone for MapWithSpan<A, OA, F> {
        fn clone(&self) -> Self {
            MapWithSpan(self.0.clone(), self.1.clone(), PhantomData)
        }
    }
    impl<A: Copy, OA, F: Copy> Copy for MapWithSpan<A, OA, F> {}
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, OA, A: Parser<'a, I, OA, E>, F: Fn(OA, I::Span) -> O> Parser<'a, I, O, E> for MapWithSpan<A, OA, F> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let before = inp.offset();
            let v = self.0.go(inp)?;
            let span = inp.span_since(before);
            Ok((self.1)(v, span))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.go_check(inp)
        }
    }

    pub struct Then<A, B, OA, OB>(pub(crate) A, pub(crate) B, pub(crate) PhantomData<fn(OA, OB)>);
    impl<A: Clone, B: Clone, OA, OB> Clone for Then<A, B, OA, OB> {
        fn clone(&self) -> Self {
            Then(self.0.clone(), self.1.clone(), PhantomData)
        }
    }
    impl<A: Copy, B: Copy, OA, OB> Copy for Then<A, B, OA, OB> {}
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, OA, OB, A: Parser<'a, I, OA, E>, B: Parser<'a, I, OB, E>> Parser<'a, I, (OA, OB), E> for Then<A, B, OA, OB> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(OA, OB), Fail> {
            let a = self.0.go(inp)?;
            let b = self.1.go(inp)?;
            Ok((a, b))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.go_check(inp)?;
            self.1.go_check(inp)
        }
    }

    #[derive(Clone, Copy)]
    pub struct OrNot<A>(pub(crate) A);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, Option<O>, E> for OrNot<A> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<Option<O>, Fail> {
            let before = inp.save();
            match self.0.go(inp) {
                Ok(v) => Ok(Some(v)),
                Err(_) => {
                    inp.rewind(before);
                    Ok(None)
                }
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            let before = inp.save();
            if self.0.go_check(inp).is_err() {
                inp.rewind(before);
            }
            Ok(())
        }
    }

    pub struct Repeated<A, OA>(pub(crate) A, pub(crate) usize, pub(crate) PhantomData<fn(OA)>);
    impl<A: Clone, OA> Clone for Repeated<A, OA> {
        fn clone(&self) -> Self {
            Repeated(self.0.clone(), self.1, PhantomData)
        }
    }
    impl<A: Copy, OA> Copy for Repeated<A, OA> {}
    impl<A, OA> Repeated<A, OA> {
        pub fn at_least(self, n: usize) -> Self {
            Repeated(self.0, n, PhantomData)
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> IterParser<'a, I, O, E> for Repeated<A, O> {
        fn each(&self, inp: &mut InputRef<'a, '_, I, E>, f: &mut dyn FnMut(O)) -> Result<(), Fail> {
            let mut n = 0;
            loop {
                let before = inp.save();
                match self.0.go(inp) {
                    Ok(v) => f(v),
                    Err(_) => {
                        inp.rewind(before);
                        return if n >= self.1 { Ok(()) } else { Err(Fail) };
                    }
                }
                n += 1;
            }
        }
        fn each_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            let mut n = 0;
            loop {
                let before = inp.save();
                if self.0.go_check(inp).is_err() {
                    inp.rewind(before);
                    return if n >= self.1 { Ok(()) } else { Err(Fail) };
                }
                n += 1;
            }
        }
    }

    pub struct Collect<A, OA, C>(pub(crate) A, pub(crate) PhantomData<fn(OA) -> C>);
    impl<A: Clone, OA, C> Clone for Collect<A, OA, C> {
        fn clone(&self) -> Self {
            Collect(self.0.clone(), PhantomData)
        }
    }
    impl<A: Copy, OA, C> Copy for Collect<A, OA, C> {}
    impl<'a, I: Input<'a>, OA, E: ParserExtra<'a, I>, A: IterParser<'a, I, OA, E>, C: Default + Extend<OA>> Parser<'a, I, C, E> for Collect<A, OA, C> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<C, Fail> {
            let mut c = C::default();
            self.0.each(inp, &mut |v| c.extend(Some(v)))?;
            Ok(c)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.0.each_check(inp)
        }
    }
}

pub mod primitive {
    use super::*;

    #[derive(Clone, Copy)]
    pub struct End;
    pub fn end() -> End {
        End
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, (), E> for End {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            if inp.token().is_none() { Ok(()) } else { Err(Fail) }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            Parser::<'a, I, (), E>::go(self, inp)
        }
    }

    pub trait OrderedSeq<T>: Clone {
        fn all(&self, f: &mut dyn FnMut(&T) -> bool) -> bool;
    }
    impl<T: Clone> OrderedSeq<T> for T {
        fn all(&self, f: &mut dyn FnMut(&T) -> bool) -> bool {
            f(self)
        }
    }
    impl<T: Clone> OrderedSeq<T> for Vec<T> {
        fn all(&self, f: &mut dyn FnMut(&T) -> bool) -> bool {
            for t in self {
                if !f(t) {
                    return false;
                }
            }
            true
        }
    }
    pub struct Just<S, I, E>(S, PhantomData<fn(I, E)>);
    impl<S: Clone, I, E> Clone for Just<S, I, E> {
        fn clone(&self) -> Self {
            Just(self.0.clone(), PhantomData)
        }
    }
    impl<S: Copy, I, E> Copy for Just<S, I, E> {}
    pub fn just<'a, S, I, E>(seq: S) -> Just<S, I, E>
    where
        I: Input<'a>,
        I::Token: PartialEq,
        E: ParserExtra<'a, I>,
        S: OrderedSeq<I::Token>,
    {
        Just(seq, PhantomData)
    }
    impl<'a, I: Input<'a>, S: OrderedSeq<I::Token>, E: ParserExtra<'a, I>> Parser<'a, I, S, E> for Just<S, I, E>
    where
        I::Token: PartialEq,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<S, Fail> {
            Parser::<'a, I, S, E>::go_check(self, inp)?;
            Ok(self.0.clone())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            if self.0.all(&mut |t| inp.token() == Some(t)) { Ok(()) } else { Err(Fail) }
        }
    }

    pub struct Select<F, I, O, E>(F, PhantomData<fn(I, E) -> O>);
    impl<F: Clone, I, O, E> Clone for Select<F, I, O, E> {
        fn clone(&self) -> Self {
            Select(self.0.clone(), PhantomData)
        }
    }
    impl<F: Copy, I, O, E> Copy for Select<F, I, O, E> {}
    pub fn select<'a, F, I, O, E>(f: F) -> Select<F, I, O, E>
    where
        I: Input<'a>,
        I::Token: Clone,
        E: ParserExtra<'a, I>,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        Select(f, PhantomData)
    }
    impl<'a, F, I, O, E> Parser<'a, I, O, E> for Select<F, I, O, E>
    where
        I: Input<'a>,
        I::Token: Clone,
        E: ParserExtra<'a, I>,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let before = inp.offset();
            match inp.token() {
                Some(t) => {
                    let span = inp.span_since(before);
                    (self.0)(t.clone(), span).ok_or(Fail)
                }
                None => Err(Fail),
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.go(inp).map(|_| ())
        }
    }

    pub struct SelectRef<F, I, O, E>(F, PhantomData<fn(I, E) -> O>);
    impl<F: Clone, I, O, E> Clone for SelectRef<F, I, O, E> {
        fn clone(&self) -> Self {
            SelectRef(self.0.clone(), PhantomData)
        }
    }
    impl<F: Copy, I, O, E> Copy for SelectRef<F, I, O, E> {}
    pub fn select_ref<'a, F, I, O, E>(f: F) -> SelectRef<F, I, O, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        SelectRef(f, PhantomData)
    }
    impl<'a, F, I, O, E> Parser<'a, I, O, E> for SelectRef<F, I, O, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let before = inp.offset();
            match inp.token() {
                Some(t) => {
                    let span = inp.span_since(before);
                    (self.0)(t, span).ok_or(Fail)
                }
                None => Err(Fail),
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            self.go(inp).map(|_| ())
        }
    }

    #[derive(Clone, Copy)]
    pub struct Choice<T>(pub(crate) T);
    pub fn choice<T>(parsers: T) -> Choice<T> {
        Choice(parsers)
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, O, E> for Choice<Vec<A>> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let before = inp.save();
            for p in &self.0 {
                if let Ok(v) = p.go(inp) {
                    return Ok(v);
                }
                inp.rewind(before);
            }
            Err(Fail)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            let before = inp.save();
            for p in &self.0 {
                if p.go_check(inp).is_ok() {
                    return Ok(());
                }
                inp.rewind(before);
            }
            Err(Fail)
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, B: Parser<'a, I, O, E>> Parser<'a, I, O, E> for Choice<(A, B)> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
            let before = inp.save();
            if let Ok(v) = self.0 .0.go(inp) {
                return Ok(v);
            }
            inp.rewind(before);
            self.0 .1.go(inp).map_err(|e| {
                inp.rewind(before);
                e
            })
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
            let before = inp.save();
            if self.0 .0.go_check(inp).is_ok() {
                return Ok(());
            }
            inp.rewind(before);
            self.0 .1.go_check(inp).map_err(|e| {
                inp.rewind(before);
                e
            })
        }
    }
}

pub mod extension {
    pub mod v1 {
        use crate::*;
        pub trait ExtParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
            fn parse(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>;
            fn check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
                self.parse(inp).map(|_| ())
            }
        }
        #[derive(Clone, Copy)]
        pub struct Ext<T: ?Sized>(pub T);
        impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: ExtParser<'a, I, O, E>> Parser<'a, I, O, E> for Ext<P> {
            fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, Fail> {
                self.0.parse(inp).map_err(|_| Fail)
            }
            fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), Fail> {
                self.0.check(inp).map_err(|_| Fail)
            }
        }
    }
}

pub mod cache {
    pub trait Cached {
        type Parser<'src>;
        fn make_parser<'src>(self) -> Self::Parser<'src>;
    }
    pub struct Cache<C: Cached> {
        parser: C::Parser<'static>,
    }
    impl<C: Cached> Cache<C> {
        pub fn new(c: C) -> Self {
            Self { parser: c.make_parser() }
        }
        pub fn get<'src>(&self) -> &C::Parser<'src> {
            // as chumsky does: the parser owns no input
            unsafe { &*(&self.parser as *const C::Parser<'static>).cast() }
        }
    }
}

#[macro_export]
macro_rules! select {
    ($($p:pat $(if $guard:expr)? => $out:expr),+ $(,)?) => {
        $crate::primitive::select(move |x, _| match x {
            $($p $(if $guard)? => ::core::option::Option::Some($out),)+
            _ => ::core::option::Option::None,
        })
    };
}
#[macro_export]
macro_rules! select_ref {
    ($($p:pat $(if $guard:expr)? => $out:expr),+ $(,)?) => {
        $crate::primitive::select_ref(move |x, _| match x {
            $($p $(if $guard)? => ::core::option::Option::Some($out),)+
            _ => ::core::option::Option::None,
        })
    };
}

pub mod prelude {
    pub use crate::{
        error::Error,
        extra,
        input::Input,
        primitive::{choice, end, just},
        select, select_ref,
        span::SimpleSpan,
        Boxed, IterParser, Parser,
    };
}
