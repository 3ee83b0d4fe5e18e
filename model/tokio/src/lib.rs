//! The real `tokio`, with `select!` expressed through one library call per arity instead of an
//! inlined polling closure, so that MIR keeps "which futures race" as a single call.
pub use real_tokio::*;
use std::{
    future::{poll_fn, Future},
    pin::pin as pin_,
    sync::atomic::{AtomicUsize, Ordering},
    task::Poll,
};

pub enum __Out2<A, B> {
    A(A),
    B(B),
}
pub enum __Out3<A, B, C> {
    A(A),
    B(B),
    C(C),
}
static TURN: AtomicUsize = AtomicUsize::new(0);

#[inline(never)]
pub async fn __select2<A: Future, B: Future>(biased: bool, a: A, b: B) -> __Out2<A::Output, B::Output> {
    let mut a = pin_!(a);
    let mut b = pin_!(b);
    poll_fn(|cx| {
        let start = if biased { 0 } else { TURN.fetch_add(1, Ordering::Relaxed) };
        for i in 0..2 {
            if (start + i) % 2 == 0 {
                if let Poll::Ready(v) = a.as_mut().poll(cx) {
                    return Poll::Ready(__Out2::A(v));
                }
            } else if let Poll::Ready(v) = b.as_mut().poll(cx) {
                return Poll::Ready(__Out2::B(v));
            }
        }
        Poll::Pending
    })
    .await
}
#[inline(never)]
pub async fn __select3<A: Future, B: Future, C: Future>(
    biased: bool,
    a: A,
    b: B,
    c: C,
) -> __Out3<A::Output, B::Output, C::Output> {
    let mut a = pin_!(a);
    let mut b = pin_!(b);
    let mut c = pin_!(c);
    poll_fn(|cx| {
        let start = if biased { 0 } else { TURN.fetch_add(1, Ordering::Relaxed) };
        for i in 0..3 {
            match (start + i) % 3 {
                0 => {
                    if let Poll::Ready(v) = a.as_mut().poll(cx) {
                        return Poll::Ready(__Out3::A(v));
                    }
                }
                1 => {
                    if let Poll::Ready(v) = b.as_mut().poll(cx) {
                        return Poll::Ready(__Out3::B(v));
                    }
                }
                _ => {
                    if let Poll::Ready(v) = c.as_mut().poll(cx) {
                        return Poll::Ready(__Out3::C(v));
                    }
                }
            }
        }
        Poll::Pending
    })
    .await
}
#[inline(never)]
pub async fn __cond<A: Future>(enabled: bool, a: A) -> A::Output {
    if enabled {
        a.await
    } else {
        std::future::pending().await
    }
}

#[macro_export]
macro_rules! select {
    (@n $m:tt $acc:tt $p:pat = $f:expr, if $c:expr => $h:block, $($r:tt)*) => { $crate::select!(@a $m $acc ($p, $crate::__cond($c, $f), $h) $($r)*) };
    (@n $m:tt $acc:tt $p:pat = $f:expr, if $c:expr => $h:block $($r:tt)*) => { $crate::select!(@a $m $acc ($p, $crate::__cond($c, $f), $h) $($r)*) };
    (@n $m:tt $acc:tt $p:pat = $f:expr, if $c:expr => $h:expr) => { $crate::select!(@a $m $acc ($p, $crate::__cond($c, $f), $h)) };
    (@n $m:tt $acc:tt $p:pat = $f:expr, if $c:expr => $h:expr, $($r:tt)*) => { $crate::select!(@a $m $acc ($p, $crate::__cond($c, $f), $h) $($r)*) };
    (@n $m:tt $acc:tt $p:pat = $f:expr => $h:block, $($r:tt)*) => { $crate::select!(@a $m $acc ($p, $f, $h) $($r)*) };
    (@n $m:tt $acc:tt $p:pat = $f:expr => $h:block $($r:tt)*) => { $crate::select!(@a $m $acc ($p, $f, $h) $($r)*) };
    (@n $m:tt $acc:tt $p:pat = $f:expr => $h:expr) => { $crate::select!(@a $m $acc ($p, $f, $h)) };
    (@n $m:tt $acc:tt $p:pat = $f:expr => $h:expr, $($r:tt)*) => { $crate::select!(@a $m $acc ($p, $f, $h) $($r)*) };
    (@n $m:tt (($p1:pat, $f1:expr, $h1:expr) ($p2:pat, $f2:expr, $h2:expr))) => {{
        #[allow(unreachable_patterns)]
        match $crate::__select2($m, $f1, $f2).await {
            $crate::__Out2::A($p1) => $h1,
            $crate::__Out2::B($p2) => $h2,
            _ => panic!("no branch matched"),
        }
    }};
    (@n $m:tt (($p1:pat, $f1:expr, $h1:expr) ($p2:pat, $f2:expr, $h2:expr) ($p3:pat, $f3:expr, $h3:expr))) => {{
        #[allow(unreachable_patterns)]
        match $crate::__select3($m, $f1, $f2, $f3).await {
            $crate::__Out3::A($p1) => $h1,
            $crate::__Out3::B($p2) => $h2,
            $crate::__Out3::C($p3) => $h3,
            _ => panic!("no branch matched"),
        }
    }};
    (@n $m:tt (($p1:pat, $f1:expr, $h1:expr))) => { match $f1.await { $p1 => $h1 } };
    (@a $m:tt ($($acc:tt)*) $b:tt $($r:tt)*) => { $crate::select!(@n $m ($($acc)* $b) $($r)*) };
    (biased; $($r:tt)*) => { $crate::select!(@n true () $($r)*) };
    ($($r:tt)*) => { $crate::select!(@n false () $($r)*) };
}

#[inline(never)]
pub async fn __join2<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) {
    real_tokio::join!(a, b)
}
#[inline(never)]
pub async fn __join3<A: Future, B: Future, C: Future>(a: A, b: B, c: C) -> (A::Output, B::Output, C::Output) {
    real_tokio::join!(a, b, c)
}
#[inline(never)]
pub async fn __try_join2<S, T, E, A: Future<Output = Result<S, E>>, B: Future<Output = Result<T, E>>>(a: A, b: B) -> Result<(S, T), E> {
    real_tokio::try_join!(a, b)
}
#[inline(never)]
pub async fn __try_join3<S, T, U, E, A: Future<Output = Result<S, E>>, B: Future<Output = Result<T, E>>, C: Future<Output = Result<U, E>>>(
    a: A,
    b: B,
    c: C,
) -> Result<(S, T, U), E> {
    real_tokio::try_join!(a, b, c)
}
#[macro_export]
macro_rules! join {
    ($a:expr $(,)?) => { ($a.await,) };
    ($a:expr, $b:expr $(,)?) => { $crate::__join2($a, $b).await };
    ($a:expr, $b:expr, $c:expr $(,)?) => { $crate::__join3($a, $b, $c).await };
}
#[macro_export]
macro_rules! try_join {
    ($a:expr $(,)?) => { match $a.await { Ok(v) => Ok((v,)), Err(e) => Err(e) } };
    ($a:expr, $b:expr $(,)?) => { $crate::__try_join2($a, $b).await };
    ($a:expr, $b:expr, $c:expr $(,)?) => { $crate::__try_join3($a, $b, $c).await };
}
