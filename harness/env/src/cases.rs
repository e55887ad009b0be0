// written by gen.py
use crate::rt::*;
#[derive(Clone)]
pub struct CompC(pub Box<u32>);

use gecs::prelude::*;
#[derive(Clone)]
pub struct CompA(pub u32);
#[derive(Clone)]
pub struct CompB(pub Box<u32>);
pub fn b(v: u32) -> CompB {
    CompB(Box::new(v))
}
ecs_world! {
    ecs_archetype!(ArchA, CompA, CompB);
    ecs_archetype!(ArchB, CompA);
}
pub fn change(mut world: EcsWorld, e0: Entity<ArchA>) {
    match pick("change", 27) {
        0 => { world.create::<ArchA>((CompA(5), b(6))); }
        1 => { world.archetype_mut::<ArchA>().create((CompA(5), b(6))); }
        2 => { <EcsWorld as WorldHas<ArchA>>::resolve_create(&mut world, (CompA(5), b(6)).into()); }
        3 => { world.destroy(e0); }
        4 => { world.destroy(e0.into_any()); }
        5 => { let d9 = world.to_direct(e0).unwrap(); world.destroy(d9); }
        6 => { let d9 = world.to_direct(e0).unwrap().into_any(); world.destroy(d9); }
        7 => { world.archetype_mut::<ArchA>().destroy(e0); }
        8 => { <EcsWorld as WorldHas<ArchA>>::resolve_destroy(&mut world, e0); }
        9 => { ecs_iter_destroy!(world, |_: &CompB| EcsStepDestroy::ContinueDestroy); }
        10 => { drop(world); }
        11 => { world = EcsWorld::new(); }
        12 => { drop(std::mem::replace(&mut world, EcsWorld::new())); }
        13 => { *world.archetype_mut::<ArchA>() = ArchA::new(); }
        14 => { world.arch_a = ArchA::new(); }
        15 => { *world.view(e0).unwrap().comp_b = b(7); }
        16 => { *world.archetype_mut::<ArchA>().view(e0.into_any()).unwrap().component_mut::<CompB>() = b(7); }
        17 => { world.archetype_mut::<ArchA>().get_slice_mut::<CompB>()[0] = b(7); }
        18 => { for x in world.archetype_mut::<ArchA>().iter_mut() { *x.2 = b(7); } }
        19 => { world.archetype_mut::<ArchA>().get_all_slices_mut().comp_b[0] = b(7); }
        20 => { <ArchA as ArchetypeHas<CompB>>::resolve_get_slice_mut(world.archetype_mut::<ArchA>())[0] = b(7); }
        21 => { ecs_find!(world, e0, |c: &mut CompB| { *c = b(7); }); }
        22 => { ecs_iter!(world, |c: &mut CompB| { *c = b(7); }); }
        23 => { world.archetype::<ArchA>().borrow_slice_mut::<CompB>()[0] = b(7); }
        24 => { *world.borrow(e0).unwrap().component_mut::<CompB>() = b(7); }
        25 => { ecs_find_borrow!(world, e0, |c: &mut CompB| { *c = b(7); }); }
        _ => { ecs_iter_borrow!(world, |c: &mut CompB| { *c = b(7); }); }
    }
}
pub fn t_hold_slice(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype_mut::<ArchA>().get_slice::<CompB>();
        let x = *h[0].0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_slice_mut(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype_mut::<ArchA>().get_slice_mut::<CompB>();
        let x = *h[0].0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_bslice(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype::<ArchA>().borrow_slice::<CompB>();
        let x = *h[0].0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_bslice_mut(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype::<ArchA>().borrow_slice_mut::<CompB>();
        let x = *h[0].0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_entities(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype::<ArchA>().entities();
        let x = (h[0] == e0) as u32;
        x
    };
    check(got == 1, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_entity(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = &world.archetype::<ArchA>().entities()[0];
        let x = (*h == e0) as u32;
        x
    };
    check(got == 1, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut h = world.archetype_mut::<ArchA>().iter();
        let x = *h.next().unwrap().2.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_iter_mut(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut h = world.archetype_mut::<ArchA>().iter_mut();
        let x = *h.next().unwrap().2.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_item(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype_mut::<ArchA>().iter().next().unwrap();
        let x = *h.2.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_item_mut(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype_mut::<ArchA>().iter_mut().next().unwrap();
        let x = *h.2.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_item_entity(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype_mut::<ArchA>().iter().next().unwrap();
        let x = (*h.0 == e0) as u32;
        x
    };
    check(got == 1, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_items(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h: Vec<_> = world.archetype_mut::<ArchA>().iter_mut().collect();
        let x = *h[0].2.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_slices(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype_mut::<ArchA>().get_all_slices_mut();
        let x = *h.comp_b[0].0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_slices_entity(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype_mut::<ArchA>().get_all_slices_mut();
        let x = (h.entity[0] == e0) as u32;
        x
    };
    check(got == 1, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_view(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.view(e0).unwrap();
        let x = *h.comp_b.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_view_component(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let v = world.view(e0).unwrap(); let h = v.component::<CompB>();
        let x = *h.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_view_component_mut(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut v = world.view(e0).unwrap(); let h = v.component_mut::<CompB>();
        let x = *h.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_view_field(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.view(e0).unwrap().comp_b;
        let x = *h.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_view_entity(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.view(e0).unwrap().entity;
        let x = (*h == e0) as u32;
        x
    };
    check(got == 1, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_view_direct(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let d = world.to_direct(e0).unwrap(); let h = world.view(d).unwrap();
        let x = *h.comp_b.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_aview(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype_mut::<ArchA>().view(e0).unwrap();
        let x = *h.comp_b.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_aview_any(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype_mut::<ArchA>().view(e0.into_any()).unwrap();
        let x = *h.comp_b.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_aview_direct_any(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let d = world.to_direct(e0).unwrap().into_any(); let h = world.archetype_mut::<ArchA>().view(d).unwrap();
        let x = *h.comp_b.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.borrow(e0).unwrap();
        let x = *h.component::<CompB>().0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_borrow_copy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let g = world.borrow(e0).unwrap(); let h = g;
        let x = *h.component::<CompB>().0 + (g.index() as u32);
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_borrow_component(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let g = world.borrow(e0).unwrap(); let h = g.component::<CompB>();
        let x = *h.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_borrow_component_mut(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let g = world.borrow(e0).unwrap(); let h = g.component_mut::<CompB>();
        let x = *h.0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_borrow_entity(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let g = world.borrow(e0).unwrap(); let h = g.entity();
        let x = (*h == e0) as u32;
        x
    };
    check(got == 1, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_aborrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype::<ArchA>().borrow(e0).unwrap();
        let x = *h.component::<CompB>().0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_aborrow_any(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype::<ArchA>().borrow(e0.into_any()).unwrap();
        let x = *h.component::<CompB>().0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_aborrow_direct(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let d = world.to_direct(e0).unwrap(); let h = world.archetype::<ArchA>().borrow(d).unwrap();
        let x = *h.component::<CompB>().0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_archetype(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype::<ArchA>();
        let x = (h.entities()[0] == e0) as u32;
        x
    };
    check(got == 1, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_archetype_mut(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = world.archetype_mut::<ArchA>();
        let x = *h.get_slice::<CompB>()[0].0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_field(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = &world.arch_a;
        let x = *h.borrow_slice::<CompB>()[0].0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_field_mut(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = &mut world.arch_a;
        let x = *h.get_slice::<CompB>()[0].0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_has_slice(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = <ArchA as ArchetypeHas<CompB>>::resolve_get_slice(world.archetype_mut::<ArchA>());
        let x = *h[0].0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_has_slice_mut(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = <ArchA as ArchetypeHas<CompB>>::resolve_get_slice_mut(world.archetype_mut::<ArchA>());
        let x = *h[0].0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_has_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = <ArchA as ArchetypeHas<CompB>>::resolve_borrow_slice(world.archetype::<ArchA>());
        let x = *h[0].0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_world_has(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = <EcsWorld as WorldHas<ArchA>>::resolve_archetype_mut(&mut world);
        let x = *h.get_slice::<CompB>()[0].0;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_leak_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut k: Option<u32> = None; ecs_find!(world, e0, |c: &CompB| { if k.is_none() { k = Some(*c.0); } }); let h = k.unwrap();
        let x = h;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_leak_mut_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut k: Option<u32> = None; ecs_find!(world, e0, |c: &mut CompB| { if k.is_none() { k = Some(*c.0); } }); let h = k.unwrap();
        let x = h;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_leak_entity_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut k: Option<Entity<ArchA>> = None; ecs_find!(world, e0, |e: &Entity<ArchA>| { if k.is_none() { k = Some(*e); } }); let h = k.unwrap();
        let x = (h == e0) as u32;
        x
    };
    check(got == 1, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_leak_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut k: Option<u32> = None; ecs_find_borrow!(world, e0, |c: &CompB| { if k.is_none() { k = Some(*c.0); } }); let h = k.unwrap();
        let x = h;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_leak_mut_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut k: Option<u32> = None; ecs_find_borrow!(world, e0, |c: &mut CompB| { if k.is_none() { k = Some(*c.0); } }); let h = k.unwrap();
        let x = h;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_leak_entity_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut k: Option<Entity<ArchA>> = None; ecs_find_borrow!(world, e0, |e: &Entity<ArchA>| { if k.is_none() { k = Some(*e); } }); let h = k.unwrap();
        let x = (h == e0) as u32;
        x
    };
    check(got == 1, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_leak_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut k: Option<u32> = None; ecs_iter!(world, |c: &CompB| { if k.is_none() { k = Some(*c.0); } }); let h = k.unwrap();
        let x = h;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_leak_mut_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut k: Option<u32> = None; ecs_iter!(world, |c: &mut CompB| { if k.is_none() { k = Some(*c.0); } }); let h = k.unwrap();
        let x = h;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_leak_entity_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut k: Option<Entity<ArchA>> = None; ecs_iter!(world, |e: &Entity<ArchA>| { if k.is_none() { k = Some(*e); } }); let h = k.unwrap();
        let x = (h == e0) as u32;
        x
    };
    check(got == 1, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_leak_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut k: Option<u32> = None; ecs_iter_borrow!(world, |c: &CompB| { if k.is_none() { k = Some(*c.0); } }); let h = k.unwrap();
        let x = h;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_leak_mut_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut k: Option<u32> = None; ecs_iter_borrow!(world, |c: &mut CompB| { if k.is_none() { k = Some(*c.0); } }); let h = k.unwrap();
        let x = h;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_leak_entity_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut k: Option<Entity<ArchA>> = None; ecs_iter_borrow!(world, |e: &Entity<ArchA>| { if k.is_none() { k = Some(*e); } }); let h = k.unwrap();
        let x = (h == e0) as u32;
        x
    };
    check(got == 1, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_return_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = ecs_find!(world, e0, |c: &CompB| *c.0).unwrap();
        let x = h;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_return_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let h = ecs_find_borrow!(world, e0, |c: &CompB| *c.0).unwrap();
        let x = h;
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_hold_leak_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let got = {
        let mut k: Vec<u32> = Vec::new(); ecs_iter_destroy!(world, |c: &CompB| { k.push(*c.0); EcsStepDestroy::Continue });
        let x = k[1];
        x
    };
    check(got == y0, "C18: a reference kept across a change of the world no longer refers to what it did");
    change(world, e0);
}
pub fn t_solo_two_views(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let p = world.view(e0).unwrap(); *p.comp_b.0 = 1; check(*p.comp_b.0 == 1, "C18: two paths to one value, one of them mutable"); let q = world.view(e0).unwrap(); *q.comp_b.0 = 2;
}
pub fn t_solo_two_component_mut(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let mut v = world.view(e0).unwrap(); let p = v.component_mut::<CompB>(); *p.0 = 1; check(*p.0 == 1, "C18: two paths to one value, one of them mutable"); let q = v.component_mut::<CompB>(); *q.0 = 2;
}
pub fn t_solo_component_and_mut(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let mut v = world.view(e0).unwrap(); let p = v.component::<CompB>(); check(*p.0 == y0, "C18: two paths to one value, one of them mutable"); let q = v.component_mut::<CompB>(); *q = b(2);
}
pub fn t_solo_component_mut_and_field(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let mut v = world.view(e0).unwrap(); let p = v.component_mut::<CompA>(); p.0 = 3; *v.comp_b = b(2); check(*v.comp_b.0 == 2 && v.comp_a.0 == 3, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_view_clone(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let v = world.view(e0).unwrap(); *v.comp_b.0 = 1; check(*v.comp_b.0 == 1, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_slices_clone(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let v = world.arch_a.get_all_slices_mut(); *v.comp_b[0].0 = 1; check(*v.comp_b[0].0 == 1, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_iter_mut_clone(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let mut i = world.arch_a.iter_mut(); let p = i.next().unwrap(); let q = i.next().unwrap(); *p.2.0 = 1; *q.2.0 = 2; check(*p.2.0 == 1, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_two_slices(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let p = world.arch_a.get_slice_mut::<CompB>(); *p[0].0 = 1; check(*p[0].0 == 1, "C18: two paths to one value, one of them mutable"); let q = world.arch_a.get_slice_mut::<CompB>(); *q[0].0 = 2;
}
pub fn t_solo_view_entity_set(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let mut v = world.view(e0).unwrap(); v.entity = &e1; check(*v.entity == e1, "C18: two paths to one value, one of them mutable"); check(world.arch_a.entities()[0] == e0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_slices_entity_set(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let s = world.arch_a.get_all_slices_mut(); s.comp_a.swap(0, 1); check(world.arch_a.entities()[0] == e0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_item_entity_set(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let mut s = world.arch_a.iter_mut().next().unwrap(); s.0 = &e1; check(*s.0 == e1 && world.arch_a.entities()[0] == e0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_entities_set(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let e = world.arch_a.entities()[0]; check(e == e0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_bslice_set(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let mut s = world.arch_a.borrow_slice_mut::<CompB>(); s[0] = b(9); check(*s[0].0 == 9, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_borrow_set(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let g = world.borrow(e0).unwrap(); let mut r = g.component_mut::<CompB>(); r.0 = Box::new(9); check(*r.0 == 9, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_slice_set(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let s = world.arch_a.get_slice_mut::<CompB>(); s[0] = b(9); check(*s[0].0 == 9, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_item_set(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let p = world.arch_a.iter_mut().next().unwrap(); *p.2 = b(9); check(*p.2.0 == 9, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_clone_view(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let w2 = world.clone(); let v = world.view(e0).unwrap(); *v.comp_b = b(3); check(*v.comp_b.0 == 3 && w2.arch_a.len() == 2, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_local_view(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let mut other = world.clone(); let h = other.view(e0).unwrap(); check(*h.comp_b.0 == y0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_local_slice(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let mut other = world.clone(); let h = other.archetype_mut::<ArchA>().get_slice::<CompB>(); check(*h[0].0 == y0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_local_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let other = world.clone(); let h = other.borrow(e0).unwrap(); check(*h.component::<CompB>().0 == y0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_local_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let mut other = world.clone(); let mut h = other.arch_a.iter(); check(*h.next().unwrap().2.0 == y0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_borrow_components(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let g = world.borrow(e0).unwrap(); let mut r = g.component_mut::<CompB>(); let x: &mut CompB = &mut *r; check(*x.0 == y0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_generic_view(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    fn one<A: Archetype, W: World>(w: &mut W, e: Entity<A>) -> A::View<'_> where W: WorldHas<A>, A: ArchetypeCanResolve<Entity<A>> { w.archetype_mut::<A>().view(e).unwrap() }
    let p = one::<ArchA, EcsWorld>(&mut world, e0); *p.comp_b.0 = 1; check(*p.comp_b.0 == 1, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_static_view(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    fn keep<'a, A: Archetype>(a: &'a mut A, e: Entity<A>) -> A::View<'a> where A: ArchetypeCanResolve<Entity<A>> { a.view(e).unwrap() }
    let p = keep(&mut world.arch_a, e0); check(*p.comp_b.0 == y0, "C18: two paths to one value, one of them mutable"); drop(world);
}
pub fn t_solo_static_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    fn keep<'a, A: Archetype>(a: &'a A, e: Entity<A>) -> A::Borrow<'a> where A: ArchetypeCanResolve<Entity<A>> { a.borrow(e).unwrap() }
    let p = keep(&world.arch_a, e0); check(*p.component::<CompB>().0 == y0, "C18: two paths to one value, one of them mutable"); drop(world);
}
pub fn t_solo_static_slice(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    fn keep<'a, A: ArchetypeHas<CompB>>(a: &'a mut A) -> &'a [CompB] { a.get_slice::<CompB>() }
    let p = keep(&mut world.arch_a); check(*p[0].0 == y0, "C18: two paths to one value, one of them mutable"); drop(world);
}
pub fn t_solo_static_ref(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    fn keep<'a, A: ArchetypeHas<CompB>>(a: &'a A) -> std::cell::Ref<'a, [CompB]> { a.borrow_slice::<CompB>() }
    let p = keep(&world.arch_a); check(*p[0].0 == y0, "C18: two paths to one value, one of them mutable"); drop(p); drop(world);
}
pub fn t_solo_static_entities(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    fn keep<'a, A: Archetype>(a: &'a A) -> &'a [Entity<A>] { a.entities() }
    let p = keep(&world.arch_a); check(p[0] == e0, "C18: two paths to one value, one of them mutable"); drop(world);
}
pub fn t_solo_components_two(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let mut c = world.destroy(e0).unwrap(); let p = c.get_mut::<CompB>(); *p.0 = 1; check(*c.get::<CompB>().0 == 1, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_components_escape(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    let c = world.destroy(e0).unwrap(); let p = c.get::<CompB>(); check(*p.0 == y0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_extract_view(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    { let mut v = world.view(e0).unwrap(); let p = <ArchA as ArchetypeHas<CompB>>::resolve_extract_view_mut(&mut v); check(*p.0 == y0, "C18: two paths to one value, one of them mutable"); } world.destroy(e0);
}
pub fn t_solo_extract_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    { let g = world.borrow(e0).unwrap(); let p = <ArchA as ArchetypeHas<CompB>>::resolve_extract_borrow_mut(&g); check(*p.0 == y0, "C18: two paths to one value, one of them mutable"); } world.destroy(e0);
}
pub fn t_solo_both_mut_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find!(world, e0, |p: &mut CompB, q: &mut CompA| { *p.0 = 1; q.0 = 2; check(*p.0 == 1, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_ref_mut_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find!(world, e0, |p: &CompB, q: &mut CompA| { let x = *p.0; q.0 = !x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_mut_ref_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find!(world, e0, |q: &mut CompA, p: &CompB| { let x = *p.0; q.0 = !x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_oneof_mut_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find!(world, e0, |p: &mut OneOf<CompB, CompC>, q: &mut CompA| { *p.0 = 1; q.0 = 2; check(*p.0 == 1, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_create_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_destroy_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_mutate_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_assign_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_acreate_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_nested_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_nested_destroy_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_both_mut_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter!(world, |p: &mut CompB, q: &mut CompA| { *p.0 = 1; q.0 = 2; check(*p.0 == 1, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_ref_mut_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter!(world, |p: &CompB, q: &mut CompA| { let x = *p.0; q.0 = !x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_mut_ref_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter!(world, |q: &mut CompA, p: &CompB| { let x = *p.0; q.0 = !x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_oneof_mut_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter!(world, |p: &mut OneOf<CompB, CompC>, q: &mut CompA| { *p.0 = 1; q.0 = 2; check(*p.0 == 1, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_create_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_destroy_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_mutate_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_assign_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_acreate_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_nested_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_nested_destroy_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_both_mut_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_destroy!(world, |p: &mut CompB, q: &mut CompA| { *p.0 = 1; q.0 = 2; check(*p.0 == 1, "C18: two paths to one value, one of them mutable"); EcsStepDestroy::Continue });
}
pub fn t_solo_ref_mut_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_destroy!(world, |p: &CompB, q: &mut CompA| { let x = *p.0; q.0 = !x; check(*p.0 == x, "C18: two paths to one value, one of them mutable"); EcsStepDestroy::Continue });
}
pub fn t_solo_mut_ref_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_destroy!(world, |q: &mut CompA, p: &CompB| { let x = *p.0; q.0 = !x; check(*p.0 == x, "C18: two paths to one value, one of them mutable"); EcsStepDestroy::Continue });
}
pub fn t_solo_oneof_mut_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_destroy!(world, |p: &mut OneOf<CompB, CompC>, q: &mut CompA| { *p.0 = 1; q.0 = 2; check(*p.0 == 1, "C18: two paths to one value, one of them mutable"); EcsStepDestroy::Continue });
}
pub fn t_solo_inside_create_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_destroy!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable"); EcsStepDestroy::Continue });
}
pub fn t_solo_inside_destroy_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_destroy!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable"); EcsStepDestroy::Continue });
}
pub fn t_solo_inside_mutate_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_destroy!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable"); EcsStepDestroy::Continue });
}
pub fn t_solo_inside_assign_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_destroy!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable"); EcsStepDestroy::Continue });
}
pub fn t_solo_inside_acreate_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_destroy!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable"); EcsStepDestroy::Continue });
}
pub fn t_solo_inside_nested_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_destroy!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable"); EcsStepDestroy::Continue });
}
pub fn t_solo_inside_nested_destroy_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_destroy!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable"); EcsStepDestroy::Continue });
}
pub fn t_solo_both_mut_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find_borrow!(world, e0, |p: &mut CompB, q: &mut CompA| { *p.0 = 1; q.0 = 2; check(*p.0 == 1, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_ref_mut_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find_borrow!(world, e0, |p: &CompB, q: &mut CompA| { let x = *p.0; q.0 = !x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_mut_ref_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find_borrow!(world, e0, |q: &mut CompA, p: &CompB| { let x = *p.0; q.0 = !x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_oneof_mut_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find_borrow!(world, e0, |p: &mut OneOf<CompB, CompC>, q: &mut CompA| { *p.0 = 1; q.0 = 2; check(*p.0 == 1, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_create_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find_borrow!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_destroy_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find_borrow!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_mutate_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find_borrow!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_assign_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find_borrow!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_acreate_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find_borrow!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_nested_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find_borrow!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_nested_destroy_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find_borrow!(world, e0, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_both_mut_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_borrow!(world, |p: &mut CompB, q: &mut CompA| { *p.0 = 1; q.0 = 2; check(*p.0 == 1, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_ref_mut_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_borrow!(world, |p: &CompB, q: &mut CompA| { let x = *p.0; q.0 = !x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_mut_ref_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_borrow!(world, |q: &mut CompA, p: &CompB| { let x = *p.0; q.0 = !x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_oneof_mut_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_borrow!(world, |p: &mut OneOf<CompB, CompC>, q: &mut CompA| { *p.0 = 1; q.0 = 2; check(*p.0 == 1, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_create_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_borrow!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_destroy_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_borrow!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_mutate_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_borrow!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_assign_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_borrow!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_acreate_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_borrow!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_nested_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_borrow!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_inside_nested_destroy_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_borrow!(world, |p: &CompB| { let x = *p.0; let _ = x; check(*p.0 == x, "C18: two paths to one value, one of them mutable");  });
}
pub fn t_solo_handle_entity_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find!(world, e0, |h: &Entity<ArchA>, _: &CompB| { check(*h == e0 || *h == e1, "C18: two paths to one value, one of them mutable");  }); check(world.arch_a.entities()[0] == e0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_handle_wild_find(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find!(world, e0, |h: &Entity<_>, _: &CompB| { check(*h == e0 || *h == e1, "C18: two paths to one value, one of them mutable");  }); check(world.arch_a.entities()[0] == e0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_handle_entity_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter!(world, |h: &Entity<ArchA>, _: &CompB| { check(*h == e0 || *h == e1, "C18: two paths to one value, one of them mutable");  }); check(world.arch_a.entities()[0] == e0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_handle_wild_iter(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter!(world, |h: &Entity<_>, _: &CompB| { check(*h == e0 || *h == e1, "C18: two paths to one value, one of them mutable");  }); check(world.arch_a.entities()[0] == e0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_handle_entity_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_destroy!(world, |h: &Entity<ArchA>, _: &CompB| { check(*h == e0 || *h == e1, "C18: two paths to one value, one of them mutable"); EcsStepDestroy::Continue }); check(world.arch_a.entities()[0] == e0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_handle_wild_iter_destroy(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_destroy!(world, |h: &Entity<_>, _: &CompB| { check(*h == e0 || *h == e1, "C18: two paths to one value, one of them mutable"); EcsStepDestroy::Continue }); check(world.arch_a.entities()[0] == e0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_handle_entity_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find_borrow!(world, e0, |h: &Entity<ArchA>, _: &CompB| { check(*h == e0 || *h == e1, "C18: two paths to one value, one of them mutable");  }); check(world.arch_a.entities()[0] == e0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_handle_wild_find_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_find_borrow!(world, e0, |h: &Entity<_>, _: &CompB| { check(*h == e0 || *h == e1, "C18: two paths to one value, one of them mutable");  }); check(world.arch_a.entities()[0] == e0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_handle_entity_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_borrow!(world, |h: &Entity<ArchA>, _: &CompB| { check(*h == e0 || *h == e1, "C18: two paths to one value, one of them mutable");  }); check(world.arch_a.entities()[0] == e0, "C18: two paths to one value, one of them mutable");
}
pub fn t_solo_handle_wild_iter_borrow(y0: u32, y1: u32) {
    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
    ecs_iter_borrow!(world, |h: &Entity<_>, _: &CompB| { check(*h == e0 || *h == e1, "C18: two paths to one value, one of them mutable");  }); check(world.arch_a.entities()[0] == e0, "C18: two paths to one value, one of them mutable");
}
pub fn twins_hold() {
    let (y0, y1) = (sym32("y0"), sym32("y1"));
    assume(y0 != y1 && y0 != 7 && y1 != 7 && y0 < 1000000);
    match pick("case", 54) {
        0 => t_hold_slice(y0, y1),
        1 => t_hold_slice_mut(y0, y1),
        2 => t_hold_bslice(y0, y1),
        3 => t_hold_bslice_mut(y0, y1),
        4 => t_hold_entities(y0, y1),
        5 => t_hold_entity(y0, y1),
        6 => t_hold_iter(y0, y1),
        7 => t_hold_iter_mut(y0, y1),
        8 => t_hold_item(y0, y1),
        9 => t_hold_item_mut(y0, y1),
        10 => t_hold_item_entity(y0, y1),
        11 => t_hold_items(y0, y1),
        12 => t_hold_slices(y0, y1),
        13 => t_hold_slices_entity(y0, y1),
        14 => t_hold_view(y0, y1),
        15 => t_hold_view_component(y0, y1),
        16 => t_hold_view_component_mut(y0, y1),
        17 => t_hold_view_field(y0, y1),
        18 => t_hold_view_entity(y0, y1),
        19 => t_hold_view_direct(y0, y1),
        20 => t_hold_aview(y0, y1),
        21 => t_hold_aview_any(y0, y1),
        22 => t_hold_aview_direct_any(y0, y1),
        23 => t_hold_borrow(y0, y1),
        24 => t_hold_borrow_copy(y0, y1),
        25 => t_hold_borrow_component(y0, y1),
        26 => t_hold_borrow_component_mut(y0, y1),
        27 => t_hold_borrow_entity(y0, y1),
        28 => t_hold_aborrow(y0, y1),
        29 => t_hold_aborrow_any(y0, y1),
        30 => t_hold_aborrow_direct(y0, y1),
        31 => t_hold_archetype(y0, y1),
        32 => t_hold_archetype_mut(y0, y1),
        33 => t_hold_field(y0, y1),
        34 => t_hold_field_mut(y0, y1),
        35 => t_hold_has_slice(y0, y1),
        36 => t_hold_has_slice_mut(y0, y1),
        37 => t_hold_has_borrow(y0, y1),
        38 => t_hold_world_has(y0, y1),
        39 => t_hold_leak_find(y0, y1),
        40 => t_hold_leak_mut_find(y0, y1),
        41 => t_hold_leak_entity_find(y0, y1),
        42 => t_hold_leak_find_borrow(y0, y1),
        43 => t_hold_leak_mut_find_borrow(y0, y1),
        44 => t_hold_leak_entity_find_borrow(y0, y1),
        45 => t_hold_leak_iter(y0, y1),
        46 => t_hold_leak_mut_iter(y0, y1),
        47 => t_hold_leak_entity_iter(y0, y1),
        48 => t_hold_leak_iter_borrow(y0, y1),
        49 => t_hold_leak_mut_iter_borrow(y0, y1),
        50 => t_hold_leak_entity_iter_borrow(y0, y1),
        51 => t_hold_return_find(y0, y1),
        52 => t_hold_return_find_borrow(y0, y1),
        _ => t_hold_leak_iter_destroy(y0, y1),
    }
    cover("end");
}
pub fn twins_solo() {
    let (y0, y1) = (sym32("y0"), sym32("y1"));
    assume(y0 != y1 && y0 != 7 && y1 != 7 && y0 < 1000000);
    match pick("case", 97) {
        0 => t_solo_two_views(y0, y1),
        1 => t_solo_two_component_mut(y0, y1),
        2 => t_solo_component_and_mut(y0, y1),
        3 => t_solo_component_mut_and_field(y0, y1),
        4 => t_solo_view_clone(y0, y1),
        5 => t_solo_slices_clone(y0, y1),
        6 => t_solo_iter_mut_clone(y0, y1),
        7 => t_solo_two_slices(y0, y1),
        8 => t_solo_view_entity_set(y0, y1),
        9 => t_solo_slices_entity_set(y0, y1),
        10 => t_solo_item_entity_set(y0, y1),
        11 => t_solo_entities_set(y0, y1),
        12 => t_solo_bslice_set(y0, y1),
        13 => t_solo_borrow_set(y0, y1),
        14 => t_solo_slice_set(y0, y1),
        15 => t_solo_item_set(y0, y1),
        16 => t_solo_clone_view(y0, y1),
        17 => t_solo_local_view(y0, y1),
        18 => t_solo_local_slice(y0, y1),
        19 => t_solo_local_borrow(y0, y1),
        20 => t_solo_local_iter(y0, y1),
        21 => t_solo_borrow_components(y0, y1),
        22 => t_solo_generic_view(y0, y1),
        23 => t_solo_static_view(y0, y1),
        24 => t_solo_static_borrow(y0, y1),
        25 => t_solo_static_slice(y0, y1),
        26 => t_solo_static_ref(y0, y1),
        27 => t_solo_static_entities(y0, y1),
        28 => t_solo_components_two(y0, y1),
        29 => t_solo_components_escape(y0, y1),
        30 => t_solo_extract_view(y0, y1),
        31 => t_solo_extract_borrow(y0, y1),
        32 => t_solo_both_mut_find(y0, y1),
        33 => t_solo_ref_mut_find(y0, y1),
        34 => t_solo_mut_ref_find(y0, y1),
        35 => t_solo_oneof_mut_find(y0, y1),
        36 => t_solo_inside_create_find(y0, y1),
        37 => t_solo_inside_destroy_find(y0, y1),
        38 => t_solo_inside_mutate_find(y0, y1),
        39 => t_solo_inside_assign_find(y0, y1),
        40 => t_solo_inside_acreate_find(y0, y1),
        41 => t_solo_inside_nested_find(y0, y1),
        42 => t_solo_inside_nested_destroy_find(y0, y1),
        43 => t_solo_both_mut_iter(y0, y1),
        44 => t_solo_ref_mut_iter(y0, y1),
        45 => t_solo_mut_ref_iter(y0, y1),
        46 => t_solo_oneof_mut_iter(y0, y1),
        47 => t_solo_inside_create_iter(y0, y1),
        48 => t_solo_inside_destroy_iter(y0, y1),
        49 => t_solo_inside_mutate_iter(y0, y1),
        50 => t_solo_inside_assign_iter(y0, y1),
        51 => t_solo_inside_acreate_iter(y0, y1),
        52 => t_solo_inside_nested_iter(y0, y1),
        53 => t_solo_inside_nested_destroy_iter(y0, y1),
        54 => t_solo_both_mut_iter_destroy(y0, y1),
        55 => t_solo_ref_mut_iter_destroy(y0, y1),
        56 => t_solo_mut_ref_iter_destroy(y0, y1),
        57 => t_solo_oneof_mut_iter_destroy(y0, y1),
        58 => t_solo_inside_create_iter_destroy(y0, y1),
        59 => t_solo_inside_destroy_iter_destroy(y0, y1),
        60 => t_solo_inside_mutate_iter_destroy(y0, y1),
        61 => t_solo_inside_assign_iter_destroy(y0, y1),
        62 => t_solo_inside_acreate_iter_destroy(y0, y1),
        63 => t_solo_inside_nested_iter_destroy(y0, y1),
        64 => t_solo_inside_nested_destroy_iter_destroy(y0, y1),
        65 => t_solo_both_mut_find_borrow(y0, y1),
        66 => t_solo_ref_mut_find_borrow(y0, y1),
        67 => t_solo_mut_ref_find_borrow(y0, y1),
        68 => t_solo_oneof_mut_find_borrow(y0, y1),
        69 => t_solo_inside_create_find_borrow(y0, y1),
        70 => t_solo_inside_destroy_find_borrow(y0, y1),
        71 => t_solo_inside_mutate_find_borrow(y0, y1),
        72 => t_solo_inside_assign_find_borrow(y0, y1),
        73 => t_solo_inside_acreate_find_borrow(y0, y1),
        74 => t_solo_inside_nested_find_borrow(y0, y1),
        75 => t_solo_inside_nested_destroy_find_borrow(y0, y1),
        76 => t_solo_both_mut_iter_borrow(y0, y1),
        77 => t_solo_ref_mut_iter_borrow(y0, y1),
        78 => t_solo_mut_ref_iter_borrow(y0, y1),
        79 => t_solo_oneof_mut_iter_borrow(y0, y1),
        80 => t_solo_inside_create_iter_borrow(y0, y1),
        81 => t_solo_inside_destroy_iter_borrow(y0, y1),
        82 => t_solo_inside_mutate_iter_borrow(y0, y1),
        83 => t_solo_inside_assign_iter_borrow(y0, y1),
        84 => t_solo_inside_acreate_iter_borrow(y0, y1),
        85 => t_solo_inside_nested_iter_borrow(y0, y1),
        86 => t_solo_inside_nested_destroy_iter_borrow(y0, y1),
        87 => t_solo_handle_entity_find(y0, y1),
        88 => t_solo_handle_wild_find(y0, y1),
        89 => t_solo_handle_entity_iter(y0, y1),
        90 => t_solo_handle_wild_iter(y0, y1),
        91 => t_solo_handle_entity_iter_destroy(y0, y1),
        92 => t_solo_handle_wild_iter_destroy(y0, y1),
        93 => t_solo_handle_entity_find_borrow(y0, y1),
        94 => t_solo_handle_wild_find_borrow(y0, y1),
        95 => t_solo_handle_entity_iter_borrow(y0, y1),
        _ => t_solo_handle_wild_iter_borrow(y0, y1),
    }
    cover("end");
}
pub fn twins_event() {
    let (y0, y1) = (sym32("y0"), sym32("y1"));
    assume(y0 != y1 && y0 != 7 && y1 != 7 && y0 < 1000000);
    match pick("case", 0) {
        _ => {}
    }
    cover("end");
}
pub fn unsound() {
    let (y0, y1) = (sym32("y0"), sym32("y1"));
    assume(y0 != y1 && y0 != 7 && y1 != 7 && y0 < 1000000);
    match pick("case", 1) {
        _ => {}
    }
    cover("end");
}
