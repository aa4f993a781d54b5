//! Type-erased service used to build arbitrary stacks (the erasure is the harness's own, not tower's).
use crate::probe::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Poll};
use tower_service::Service;

pub type Fut = Pin<Box<dyn Future<Output = Result<Resp, BoxError>> + Send>>;

trait Obj: Send {
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>>;
    fn call(&mut self, r: Req) -> Fut;
    fn box_clone(&self) -> Option<Box<dyn Obj>>;
}
struct C<S>(S);
struct N<S>(S);

fn boxed<F, E>(f: F) -> Fut
where
    F: Future<Output = Result<Resp, E>> + Send + 'static,
    E: Into<BoxError>,
{
    Box::pin(ErrInto(Box::pin(f)))
}
struct ErrInto<F>(Pin<Box<F>>);
impl<F, E> Future for ErrInto<F>
where
    F: Future<Output = Result<Resp, E>>,
    E: Into<BoxError>,
{
    type Output = Result<Resp, BoxError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.0.as_mut().poll(cx).map(|r| r.map_err(Into::into))
    }
}

macro_rules! obj {
    ($t:ident, $clone:expr, [$($b:tt)*]) => {
        impl<S> Obj for $t<S>
        where
            S: Service<Req, Response = Resp> + Send + $($b)* 'static,
            S::Error: Into<BoxError>,
            S::Future: Send + 'static,
        {
            fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
                self.0.poll_ready(cx).map_err(Into::into)
            }
            fn call(&mut self, r: Req) -> Fut {
                boxed(self.0.call(r))
            }
            fn box_clone(&self) -> Option<Box<dyn Obj>> {
                let f: fn(&Self) -> Option<Box<dyn Obj>> = $clone;
                f(self)
            }
        }
    };
}
obj!(C, |s| Some(Box::new(C(s.0.clone()))), [Clone +]);
obj!(N, |_| None, []);

pub struct Dyn {
    obj: Box<dyn Obj>,
    pub cloneable: bool,
}
impl std::fmt::Debug for Dyn {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Dyn")
    }
}
impl Dyn {
    pub fn c<S>(s: S) -> Dyn
    where
        S: Service<Req, Response = Resp> + Send + Clone + 'static,
        S::Error: Into<BoxError>,
        S::Future: Send + 'static,
    {
        Dyn { obj: Box::new(C(s)), cloneable: true }
    }
    pub fn n<S>(s: S) -> Dyn
    where
        S: Service<Req, Response = Resp> + Send + 'static,
        S::Error: Into<BoxError>,
        S::Future: Send + 'static,
    {
        Dyn { obj: Box::new(N(s)), cloneable: false }
    }
    /// For services that are cloneable exactly if their inner one is.
    pub fn cn<S>(s: S, cloneable: bool) -> Dyn
    where
        S: Service<Req, Response = Resp> + Send + Clone + 'static,
        S::Error: Into<BoxError>,
        S::Future: Send + 'static,
    {
        if cloneable {
            Dyn::c(s)
        } else {
            Dyn::n(s)
        }
    }
}
impl Clone for Dyn {
    fn clone(&self) -> Self {
        Dyn { obj: self.obj.box_clone().expect("harness bug: clone of a non-cloneable stack"), cloneable: true }
    }
}
impl Service<Req> for Dyn {
    type Response = Resp;
    type Error = BoxError;
    type Future = Fut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        self.obj.poll_ready(cx)
    }
    fn call(&mut self, r: Req) -> Fut {
        self.obj.call(r)
    }
}

/// Sync view of a `Dyn`.
pub struct SyncDyn(Mutex<Dyn>);
impl SyncDyn {
    pub fn new(d: Dyn) -> Self {
        SyncDyn(Mutex::new(d))
    }
}
impl Clone for SyncDyn {
    fn clone(&self) -> Self {
        SyncDyn(Mutex::new(self.0.lock().unwrap_or_else(|e| e.into_inner()).clone()))
    }
}
impl Service<Req> for SyncDyn {
    type Response = Resp;
    type Error = BoxError;
    type Future = SyncFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        self.0.get_mut().unwrap_or_else(|e| e.into_inner()).poll_ready(cx)
    }
    fn call(&mut self, r: Req) -> SyncFut {
        SyncFut(Mutex::new(self.0.get_mut().unwrap_or_else(|e| e.into_inner()).call(r)))
    }
}

/// Sync view of a `Fut`.
pub struct SyncFut(Mutex<Fut>);
impl Future for SyncFut {
    type Output = Result<Resp, BoxError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.0.get_mut().unwrap_or_else(|e| e.into_inner()).as_mut().poll(cx)
    }
}
