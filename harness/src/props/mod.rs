use crate::core::Prop;
mod balance;
mod buffer;
mod cache;
mod comb;
mod contain;
mod cross;
mod fair;
mod hedge;
mod inspect;
mod errs;
mod laws;
mod leak;
mod limit;
mod load;
mod make;
mod meta;
mod mock;
mod race;
mod retry;
mod route;
mod simple;
mod trace;
mod util;

pub fn all() -> Vec<Prop> {
    let mut v = cross::props(components);
    v.extend(components());
    v
}
fn components() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(buffer::props());
    v.extend(simple::props());
    v.extend(limit::props());
    v.extend(load::props());
    v.extend(balance::props());
    v.extend(cache::props());
    v.extend(hedge::props());
    v.extend(route::props());
    v.extend(comb::props());
    v.extend(retry::props());
    v.extend(mock::props());
    v.extend(make::props());
    v.extend(util::props());
    v.extend(trace::props());
    v.extend(contain::props());
    v.extend(inspect::props());
    v.extend(errs::props());
    v.extend(meta::props());
    v.extend(fair::props());
    v.extend(laws::props());
    v
}
