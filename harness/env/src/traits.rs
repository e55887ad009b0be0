//! Which auto-traits hold is settled by the compiler; each fact is read off as a constant of the
//! generated code and judged against the rule. The rule is about every component type: the four
//! kinds below are all there are, as far as `Send` and `Sync` can tell component types apart.
use crate::rt::*;
use gecs::prelude::*;
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::MutexGuard;

pub struct Probe<T>(PhantomData<T>);
pub fn probe<T>(_: &T) -> Probe<T> {
    Probe(PhantomData)
}
macro_rules! probes {
    ($($f:ident $c:ident $fb:ident $bound:ident;)*) => { $(
        pub trait $fb { const $c: bool = false; fn $f(&self) -> bool { false } }
        impl<T> $fb for Probe<T> {}
        )*
        $( impl<T: $bound> Probe<T> { pub const $c: bool = true; pub fn $f(&self) -> bool { true } } )*
    };
}
probes! {
    is_send SEND NotSend Send;
    is_sync SYNC NotSync Sync;
    is_copy COPY NotCopy Copy;
    is_clone CLONE NotClone Clone;
}

/// Both, only Send, only Sync, neither.
#[derive(Clone, Default)]
pub struct Both(pub u32);
#[derive(Clone, Default)]
pub struct OnlySend(pub Cell<u32>);
pub struct OnlySync(pub u32, pub PhantomData<MutexGuard<'static, u32>>);
#[derive(Clone, Default)]
pub struct Neither(pub Rc<u32>);
impl Clone for OnlySync {
    fn clone(&self) -> Self {
        OnlySync(self.0, PhantomData)
    }
}
#[derive(Clone, Default)]
pub struct Other(pub u32);

const HANDLE: &str = "C18: a handle is not Copy + Send + Sync";
const SYNC: &str = "C18: a world or an archetype is Sync";
const SEND: &str = "C18: a world or an archetype is Send, and one of its components is not";
const NOT_SEND: &str = "C18: a world of components that are all Send cannot be moved to another thread";
const REF: &str = "C18: something that refers to components crosses threads although they do not";

macro_rules! family {
    ($m:ident, $world:ident, $wcap:ident, $arch:ident, $comp:ident, $mk:expr, $($more:ident)?) => {
        mod $m {
            use super::*;
            ecs_world! {
                ecs_archetype!(ArchX, Other, $comp);
                ecs_archetype!(ArchY, Other);
                ecs_archetype!(ArchZ, $comp);
            }
            macro_rules! handles {
                ($t:ty) => {
                    check(Probe::<$t>::COPY && Probe::<$t>::CLONE && Probe::<$t>::SEND && Probe::<$t>::SYNC, HANDLE)
                };
            }
            pub fn facts(mut send: bool, mut sync: bool) {
                let _ = (&mut send, &mut sync);
                handles!(Entity<ArchX>);
                handles!(Entity<ArchZ>);
                handles!(EntityDirect<ArchX>);
                handles!(EntityDirect<ArchZ>);
                handles!(EntityAny);
                handles!(EntityDirectAny);
                check(Probe::<EcsWorld>::SYNC == false && Probe::<ArchX>::SYNC == false && Probe::<ArchY>::SYNC == false && Probe::<ArchZ>::SYNC == false, SYNC);
                check(send || (Probe::<EcsWorld>::SEND == false && Probe::<ArchX>::SEND == false && Probe::<ArchZ>::SEND == false), SEND);
                check(send == false || (Probe::<EcsWorld>::SEND && Probe::<ArchX>::SEND && Probe::<ArchZ>::SEND), NOT_SEND);
                check(Probe::<ArchY>::SEND, NOT_SEND);
                // a shared borrow of an archetype is one of its cells, too
                check(Probe::<<ArchX as Archetype>::Borrow<'static>>::SEND == false && Probe::<<ArchX as Archetype>::Borrow<'static>>::SYNC == false, REF);
                check(Probe::<<ArchZ as Archetype>::Borrow<'static>>::SEND == false && Probe::<<ArchY as Archetype>::Borrow<'static>>::SYNC == false, REF);
                // exclusive access moves with Send, is shared with Sync
                check(send || (Probe::<<ArchX as Archetype>::View<'static>>::SEND == false && Probe::<<ArchX as Archetype>::Slices<'static>>::SEND == false
                    && Probe::<<ArchX as Archetype>::Components>::SEND == false && Probe::<<ArchX as Archetype>::IterItemMut<'static>>::SEND == false), REF);
                check(sync || (Probe::<<ArchX as Archetype>::View<'static>>::SYNC == false && Probe::<<ArchX as Archetype>::Slices<'static>>::SYNC == false
                    && Probe::<<ArchX as Archetype>::Components>::SYNC == false && Probe::<<ArchX as Archetype>::IterItemMut<'static>>::SYNC == false), REF);
                // shared access moves with Sync
                check(sync || (Probe::<<ArchX as Archetype>::IterItem<'static>>::SEND == false && Probe::<<ArchX as Archetype>::IterItem<'static>>::SYNC == false), REF);
                check(Probe::<<ArchX as Archetype>::View<'static>>::CLONE == false && Probe::<<ArchX as Archetype>::Slices<'static>>::CLONE == false
                    && Probe::<<ArchX as Archetype>::View<'static>>::COPY == false, "C18: exclusive access can be duplicated");
                let mut a = ArchX::new();
                {
                    let i = a.iter();
                    check(sync || (probe(&i).is_send() == false && probe(&i).is_sync() == false), REF);
                }
                {
                    let i = a.iter_mut();
                    check(send || probe(&i).is_send() == false, REF);
                    check(sync || probe(&i).is_sync() == false, REF);
                    check(probe(&i).is_clone() == false, "C18: exclusive access can be duplicated");
                }
                {
                    let r = a.borrow_slice::<$comp>();
                    let other = a.borrow_slice_mut::<Other>();
                    check(probe(&r).is_send() == false && probe(&other).is_send() == false, REF);
                    check(sync || probe(&r).is_sync() == false, REF);
                }
                cover(stringify!($m));
            }
        }
    };
}
family!(both, W0, C0, A0, Both, Both(1),);
family!(only_send, W1, C1, A1, OnlySend, OnlySend(Cell::new(1)),);
family!(only_sync, W2, C2, A2, OnlySync, OnlySync(1, PhantomData),);
family!(neither, W3, C3, A3, Neither, Neither(Rc::new(1)),);

pub fn all() {
    check(Probe::<Both>::SEND && Probe::<Both>::SYNC && Probe::<OnlySend>::SEND && Probe::<OnlySend>::SYNC == false && Probe::<OnlySync>::SEND == false
        && Probe::<OnlySync>::SYNC && Probe::<Neither>::SEND == false && Probe::<Neither>::SYNC == false, "C18: the probes work");
    match pick("component", 4) {
        0 => both::facts(true, true),
        1 => only_send::facts(true, false),
        2 => only_sync::facts(false, true),
        _ => neither::facts(false, false),
    }
    cover("end");
}
