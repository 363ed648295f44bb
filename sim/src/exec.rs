//! Discrete-event executor: every session is a coroutine that hands control back, with a simulated
//! latency, at each of its yield points. The event queue decides who runs; nothing else does.

use crate::rng::mix;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::collections::BinaryHeap;
use std::cmp::Reverse;

pub type YieldFn<'a> = &'a dyn Fn(u64);
pub type Body = Box<dyn FnOnce(YieldFn)>;

thread_local! {
    static POOL: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    pub static NOW: Cell<u64> = const { Cell::new(0) };
}

pub struct Sched {
    pub simtime: u64,
    pub hash: u64,
    pub switches: u64,
    /// session ids in resume order (capped)
    pub order: Vec<u8>,
}

/// Runs one body to completion with nothing else around it.
pub fn alone(body: Body) -> Sched {
    NOW.set(0);
    body(&|lat| NOW.set(NOW.get() + lat));
    Sched { simtime: NOW.get(), hash: 0, switches: 0, order: vec![] }
}

/// Runs all bodies interleaved. `start[i]` is the simulated time at which body i begins.
pub fn interleave(bodies: Vec<Body>, start: &[u64]) -> Sched {
    if bodies.len() == 1 {
        return alone(bodies.into_iter().next().unwrap());
    }
    NOW.set(0);
    type Co = Coroutine<(), u64, (), DefaultStack>;
    let mut cos: Vec<Option<Co>> = Vec::new();
    for b in bodies {
        let stack = POOL
            .with_borrow_mut(|p| p.pop())
            .unwrap_or_else(|| DefaultStack::new(512 * 1024).expect("stack"));
        cos.push(Some(Coroutine::with_stack(stack, move |y: &Yielder<(), u64>, _: ()| {
            b(&|lat| {
                y.suspend(lat);
            })
        })));
    }
    let mut q = BinaryHeap::new();
    let mut seq = 0u64;
    for (i, s) in start.iter().enumerate() {
        q.push(Reverse((*s, seq, i)));
        seq += 1;
    }
    let mut r = Sched { simtime: 0, hash: 7, switches: 0, order: vec![] };
    let mut last = usize::MAX;
    while let Some(Reverse((t, _, i))) = q.pop() {
        NOW.set(t);
        r.simtime = t;
        if i != last {
            r.switches += 1;
            last = i;
        }
        r.hash = mix(r.hash, i as u64);
        if r.order.len() < 2000 {
            r.order.push(i as u8);
        }
        let co = cos[i].as_mut().unwrap();
        match co.resume(()) {
            CoroutineResult::Yield(lat) => {
                q.push(Reverse((t + lat, seq, i)));
                seq += 1;
            }
            CoroutineResult::Return(()) => {
                let co = cos[i].take().unwrap();
                POOL.with_borrow_mut(|p| p.push(co.into_stack()));
            }
        }
    }
    r
}
