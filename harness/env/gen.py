#!/usr/bin/env python3
"""Client programs at the edge of what the API's types admit.

Every case is a pair: a sound program (the twin), and the same steps in an order, or through a
reference, that would be unsound.  `write_lib` writes the twins and those unsound programs that the
compiler turned out to admit; `bad()` lists all the unsound ones, `crate(names)` the text of a crate
of them (see vlib.py, `admit`)."""
import os, re, sys

WORLD = """
use gecs::prelude::*;
#[derive(Clone)]
pub struct CompA(pub u32);
#[derive(Clone)]
pub struct CompB(pub Box<u32>);
pub fn b(v: u32) -> CompB {
    CompB(Box::new(v))
}
ecs_world! {
    ecs_archetype!(ArchA, CompA, CompB);
    ecs_archetype!(ArchB, CompA);
}
"""
SETUP = """    let mut world = EcsWorld::with_capacity(EcsWorldCapacity { arch_a: 2, arch_b: 1 });
    let e0 = world.create::<ArchA>((CompA(y0), b(y0)));
    let e1 = world.create::<ArchA>((CompA(y1), b(y1)));
    let f0 = world.create::<ArchB>((CompA(y1),));
"""
FULL = """    let e2 = world.create::<ArchA>((CompA(y1), b(y1)));
    let e3 = world.create::<ArchA>((CompA(y1), b(y1)));
"""
X, S = True, False
# name: (exclusive?, how the reference is obtained, how it is read, what it must read)
HOLD = {
    "slice": (X, "let h = world.archetype_mut::<ArchA>().get_slice::<CompB>();", "*h[0].0", "y0"),
    "slice_mut": (X, "let h = world.archetype_mut::<ArchA>().get_slice_mut::<CompB>();", "*h[0].0", "y0"),
    "bslice": (S, "let h = world.archetype::<ArchA>().borrow_slice::<CompB>();", "*h[0].0", "y0"),
    "bslice_mut": (S, "let h = world.archetype::<ArchA>().borrow_slice_mut::<CompB>();", "*h[0].0", "y0"),
    "entities": (S, "let h = world.archetype::<ArchA>().entities();", "(h[0] == e0) as u32", "1"),
    "entity": (S, "let h = &world.archetype::<ArchA>().entities()[0];", "(*h == e0) as u32", "1"),
    "iter": (X, "let mut h = world.archetype_mut::<ArchA>().iter();", "*h.next().unwrap().2.0", "y0"),
    "iter_mut": (X, "let mut h = world.archetype_mut::<ArchA>().iter_mut();", "*h.next().unwrap().2.0", "y0"),
    "item": (X, "let h = world.archetype_mut::<ArchA>().iter().next().unwrap();", "*h.2.0", "y0"),
    "item_mut": (X, "let h = world.archetype_mut::<ArchA>().iter_mut().next().unwrap();", "*h.2.0", "y0"),
    "item_entity": (X, "let h = world.archetype_mut::<ArchA>().iter().next().unwrap();", "(*h.0 == e0) as u32", "1"),
    "items": (X, "let h: Vec<_> = world.archetype_mut::<ArchA>().iter_mut().collect();", "*h[0].2.0", "y0"),
    "slices": (X, "let h = world.archetype_mut::<ArchA>().get_all_slices_mut();", "*h.comp_b[0].0", "y0"),
    "slices_entity": (X, "let h = world.archetype_mut::<ArchA>().get_all_slices_mut();", "(h.entity[0] == e0) as u32", "1"),
    "view": (X, "let h = world.view(e0).unwrap();", "*h.comp_b.0", "y0"),
    "view_component": (X, "let v = world.view(e0).unwrap(); let h = v.component::<CompB>();", "*h.0", "y0"),
    "view_component_mut": (X, "let mut v = world.view(e0).unwrap(); let h = v.component_mut::<CompB>();", "*h.0", "y0"),
    "view_field": (X, "let h = world.view(e0).unwrap().comp_b;", "*h.0", "y0"),
    "view_entity": (X, "let h = world.view(e0).unwrap().entity;", "(*h == e0) as u32", "1"),
    "view_direct": (X, "let d = world.to_direct(e0).unwrap(); let h = world.view(d).unwrap();", "*h.comp_b.0", "y0"),
    "aview": (X, "let h = world.archetype_mut::<ArchA>().view(e0).unwrap();", "*h.comp_b.0", "y0"),
    "aview_any": (X, "let h = world.archetype_mut::<ArchA>().view(e0.into_any()).unwrap();", "*h.comp_b.0", "y0"),
    "aview_direct_any": (X, "let d = world.to_direct(e0).unwrap().into_any(); let h = world.archetype_mut::<ArchA>().view(d).unwrap();", "*h.comp_b.0", "y0"),
    "borrow": (S, "let h = world.borrow(e0).unwrap();", "*h.component::<CompB>().0", "y0"),
    "borrow_copy": (S, "let g = world.borrow(e0).unwrap(); let h = g;", "*h.component::<CompB>().0 + (g.index() as u32)", "y0"),
    "borrow_component": (S, "let g = world.borrow(e0).unwrap(); let h = g.component::<CompB>();", "*h.0", "y0"),
    "borrow_component_mut": (S, "let g = world.borrow(e0).unwrap(); let h = g.component_mut::<CompB>();", "*h.0", "y0"),
    "borrow_entity": (S, "let g = world.borrow(e0).unwrap(); let h = g.entity();", "(*h == e0) as u32", "1"),
    "aborrow": (S, "let h = world.archetype::<ArchA>().borrow(e0).unwrap();", "*h.component::<CompB>().0", "y0"),
    "aborrow_any": (S, "let h = world.archetype::<ArchA>().borrow(e0.into_any()).unwrap();", "*h.component::<CompB>().0", "y0"),
    "aborrow_direct": (S, "let d = world.to_direct(e0).unwrap(); let h = world.archetype::<ArchA>().borrow(d).unwrap();", "*h.component::<CompB>().0", "y0"),
    "archetype": (S, "let h = world.archetype::<ArchA>();", "(h.entities()[0] == e0) as u32", "1"),
    "archetype_mut": (X, "let h = world.archetype_mut::<ArchA>();", "*h.get_slice::<CompB>()[0].0", "y0"),
    "field": (S, "let h = &world.arch_a;", "*h.borrow_slice::<CompB>()[0].0", "y0"),
    "field_mut": (X, "let h = &mut world.arch_a;", "*h.get_slice::<CompB>()[0].0", "y0"),
}
# the results of queries: the unsound program lets a reference out of the closure
LEAK = {}
for m, ref in (("ecs_find!", "world, e0, "), ("ecs_find_borrow!", "world, e0, "), ("ecs_iter!", "world, "), ("ecs_iter_borrow!", "world, ")):
    n = m[4:-1]
    LEAK["leak_" + n] = (m, "let mut k: Option<&CompB> = None; %s(%s|c: &CompB| { if k.is_none() { k = Some(c); } }); let h = k.unwrap();" % (m, ref), "*h.0", "y0",
                         "let mut k: Option<u32> = None; %s(%s|c: &CompB| { if k.is_none() { k = Some(*c.0); } }); let h = k.unwrap();" % (m, ref), "h")
    LEAK["leak_mut_" + n] = (m, "let mut k: Option<&mut CompB> = None; %s(%s|c: &mut CompB| { if k.is_none() { k = Some(c); } }); let h = k.unwrap();" % (m, ref), "*h.0", "y0",
                             "let mut k: Option<u32> = None; %s(%s|c: &mut CompB| { if k.is_none() { k = Some(*c.0); } }); let h = k.unwrap();" % (m, ref), "h")
    LEAK["leak_entity_" + n] = (m, "let mut k: Option<&Entity<ArchA>> = None; %s(%s|e: &Entity<ArchA>| { if k.is_none() { k = Some(e); } }); let h = k.unwrap();" % (m, ref), "(*h == e0) as u32", "1",
                                "let mut k: Option<Entity<ArchA>> = None; %s(%s|e: &Entity<ArchA>| { if k.is_none() { k = Some(*e); } }); let h = k.unwrap();" % (m, ref), "(h == e0) as u32")
for m in ("ecs_find!", "ecs_find_borrow!"):
    n = m[4:-1]
    LEAK["return_" + n] = (m, "let h = %s(world, e0, |c: &CompB| c).unwrap();" % m, "*h.0", "y0", "let h = %s(world, e0, |c: &CompB| *c.0).unwrap();" % m, "h")
LEAK["leak_iter_destroy"] = ("ecs_iter_destroy!", "let mut k: Vec<&CompB> = Vec::new(); ecs_iter_destroy!(world, |c: &CompB| { k.push(c); EcsStepDestroy::Continue });", "*k[1].0", "y0",
                             "let mut k: Vec<u32> = Vec::new(); ecs_iter_destroy!(world, |c: &CompB| { k.push(*c.0); EcsStepDestroy::Continue });", "k[1]")
# structural changes, and mutations through another path: (exclusive?, statement)
CHANGE = {
    "create": (X, "world.create::<ArchA>((CompA(5), b(6)));"),
    "acreate": (X, "world.archetype_mut::<ArchA>().create((CompA(5), b(6)));"),
    "destroy": (X, "world.destroy(e0);"),
    "destroy_any": (X, "world.destroy(e0.into_any());"),
    "destroy_direct": (X, "let d9 = world.to_direct(e0).unwrap(); world.destroy(d9);"),
    "destroy_direct_any": (X, "let d9 = world.to_direct(e0).unwrap().into_any(); world.destroy(d9);"),
    "adestroy": (X, "world.archetype_mut::<ArchA>().destroy(e0);"),
    "iter_destroy": (X, "ecs_iter_destroy!(world, |_: &CompB| EcsStepDestroy::ContinueDestroy);"),
    "drop": (X, "drop(world);"),
    "assign": (X, "world = EcsWorld::new();"),
    "replace": (X, "drop(std::mem::replace(&mut world, EcsWorld::new()));"),
    "areplace": (X, "*world.archetype_mut::<ArchA>() = ArchA::new();"),
    "field_assign": (X, "world.arch_a = ArchA::new();"),
    "m_view": (X, "*world.view(e0).unwrap().comp_b = b(7);"),
    "m_aview": (X, "*world.archetype_mut::<ArchA>().view(e0.into_any()).unwrap().component_mut::<CompB>() = b(7);"),
    "m_slice": (X, "world.archetype_mut::<ArchA>().get_slice_mut::<CompB>()[0] = b(7);"),
    "m_iter": (X, "for x in world.archetype_mut::<ArchA>().iter_mut() { *x.2 = b(7); }"),
    "m_slices": (X, "world.archetype_mut::<ArchA>().get_all_slices_mut().comp_b[0] = b(7);"),
    "m_find": (X, "ecs_find!(world, e0, |c: &mut CompB| { *c = b(7); });"),
    "m_iterq": (X, "ecs_iter!(world, |c: &mut CompB| { *c = b(7); });"),
    "m_bslice": (S, "world.archetype::<ArchA>().borrow_slice_mut::<CompB>()[0] = b(7);"),
    "m_borrow": (S, "*world.borrow(e0).unwrap().component_mut::<CompB>() = b(7);"),
    "m_findb": (S, "ecs_find_borrow!(world, e0, |c: &mut CompB| { *c = b(7); });"),
    "m_iterb": (S, "ecs_iter_borrow!(world, |c: &mut CompB| { *c = b(7); });"),
}
# events: four entities, so that the log of a fifth is reallocated
EVENT = {
    "created": (S, "let h = world.archetype::<ArchA>().iter_created().next().unwrap();", "(*h == e0) as u32", "1"),
    "created_iter": (S, "let mut h = world.archetype::<ArchA>().iter_created();", "(*h.next().unwrap() == e0) as u32", "1"),
    "world_created": (S, "let h = world.iter_created().next().unwrap();", "(*h == e0.into_any()) as u32", "1"),
    "world_created_iter": (S, "let mut h = world.iter_created();", "(*h.next().unwrap() == e0.into_any()) as u32", "1"),
}
EVENT_CHANGE = ["create", "acreate", "drop", "assign", "replace", "areplace"]
# programs that are unsound in themselves: (unsound, twin)
SOLO = {
    "two_views": ("let p = world.view(e0).unwrap(); let q = world.view(e0).unwrap(); *p.comp_b.0 = 1; *q.comp_b.0 = 2; check(*p.comp_b.0 == 1, M);",
                  "let p = world.view(e0).unwrap(); *p.comp_b.0 = 1; check(*p.comp_b.0 == 1, M); let q = world.view(e0).unwrap(); *q.comp_b.0 = 2;"),
    "two_component_mut": ("let mut v = world.view(e0).unwrap(); let p = v.component_mut::<CompB>(); let q = v.component_mut::<CompB>(); *p.0 = 1; *q.0 = 2; check(*p.0 == 1, M);",
                          "let mut v = world.view(e0).unwrap(); let p = v.component_mut::<CompB>(); *p.0 = 1; check(*p.0 == 1, M); let q = v.component_mut::<CompB>(); *q.0 = 2;"),
    "component_and_mut": ("let mut v = world.view(e0).unwrap(); let p = v.component::<CompB>(); let q = v.component_mut::<CompB>(); *q = b(2); check(*p.0 == y0, M);",
                          "let mut v = world.view(e0).unwrap(); let p = v.component::<CompB>(); check(*p.0 == y0, M); let q = v.component_mut::<CompB>(); *q = b(2);"),
    "component_mut_and_field": ("let mut v = world.view(e0).unwrap(); let p = v.component_mut::<CompB>(); *v.comp_b = b(2); check(*p.0 == y0, M);",
                                "let mut v = world.view(e0).unwrap(); let p = v.component_mut::<CompA>(); p.0 = 3; *v.comp_b = b(2); check(*v.comp_b.0 == 2 && v.comp_a.0 == 3, M);"),
    "view_clone": ("let v = world.view(e0).unwrap(); let w = v.clone(); *v.comp_b.0 = 1; *w.comp_b.0 = 2; check(*v.comp_b.0 == 1, M);",
                   "let v = world.view(e0).unwrap(); *v.comp_b.0 = 1; check(*v.comp_b.0 == 1, M);"),
    "slices_clone": ("let v = world.arch_a.get_all_slices_mut(); let w = v.clone(); *v.comp_b[0].0 = 1; *w.comp_b[0].0 = 2; check(*v.comp_b[0].0 == 1, M);",
                     "let v = world.arch_a.get_all_slices_mut(); *v.comp_b[0].0 = 1; check(*v.comp_b[0].0 == 1, M);"),
    "iter_mut_clone": ("let mut i = world.arch_a.iter_mut(); let mut j = i.clone(); let p = i.next().unwrap(); let q = j.next().unwrap(); *p.2.0 = 1; *q.2.0 = 2; check(*p.2.0 == 1, M);",
                       "let mut i = world.arch_a.iter_mut(); let p = i.next().unwrap(); let q = i.next().unwrap(); *p.2.0 = 1; *q.2.0 = 2; check(*p.2.0 == 1, M);"),
    "two_slices": ("let p = world.arch_a.get_slice_mut::<CompB>(); let q = world.arch_a.get_slice_mut::<CompB>(); *p[0].0 = 1; *q[0].0 = 2; check(*p[0].0 == 1, M);",
                   "let p = world.arch_a.get_slice_mut::<CompB>(); *p[0].0 = 1; check(*p[0].0 == 1, M); let q = world.arch_a.get_slice_mut::<CompB>(); *q[0].0 = 2;"),
    "view_entity_set": ("let v = world.view(e0).unwrap(); *v.entity = e1; check(world.arch_a.entities()[0] == e0, M);",
                        "let mut v = world.view(e0).unwrap(); v.entity = &e1; check(*v.entity == e1, M); check(world.arch_a.entities()[0] == e0, M);"),
    "slices_entity_set": ("let s = world.arch_a.get_all_slices_mut(); s.entity.swap(0, 1); check(world.arch_a.entities()[0] == e0, M);",
                          "let s = world.arch_a.get_all_slices_mut(); s.comp_a.swap(0, 1); check(world.arch_a.entities()[0] == e0, M);"),
    "item_entity_set": ("let s = world.arch_a.iter_mut().next().unwrap(); *s.0 = e1; check(world.arch_a.entities()[0] == e0, M);",
                        "let mut s = world.arch_a.iter_mut().next().unwrap(); s.0 = &e1; check(*s.0 == e1 && world.arch_a.entities()[0] == e0, M);"),
    "entities_set": ("world.arch_a.entities()[0] = e1; check(world.arch_a.entities()[0] == e0, M);", "let e = world.arch_a.entities()[0]; check(e == e0, M);"),
    "bslice_set": ("let s = world.arch_a.borrow_slice::<CompB>(); let r = &s[0]; s[0] = b(9); check(*r.0 == y0, M);",
                   "let mut s = world.arch_a.borrow_slice_mut::<CompB>(); s[0] = b(9); check(*s[0].0 == 9, M);"),
    "borrow_set": ("let g = world.borrow(e0).unwrap(); let r = g.component::<CompB>(); let x: &u32 = &r.0; r.0 = Box::new(9); check(*x == y0, M);",
                   "let g = world.borrow(e0).unwrap(); let mut r = g.component_mut::<CompB>(); r.0 = Box::new(9); check(*r.0 == 9, M);"),
    "slice_set": ("let s = world.arch_a.get_slice::<CompB>(); let r = &s[0]; s[0] = b(9); check(*r.0 == y0, M);",
                  "let s = world.arch_a.get_slice_mut::<CompB>(); s[0] = b(9); check(*s[0].0 == 9, M);"),
    "item_set": ("let p = world.arch_a.iter().next().unwrap(); let r: &u32 = &p.2.0; *p.2 = b(9); check(*r == y0, M);",
                 "let p = world.arch_a.iter_mut().next().unwrap(); *p.2 = b(9); check(*p.2.0 == 9, M);"),
    "clone_view": ("let v = world.view(e0).unwrap(); let w2 = world.clone(); *v.comp_b = b(3); check(*v.comp_b.0 == 3 && w2.arch_a.len() == 2, M); drop(world); check(*v.comp_b.0 == 3, M);",
                   "let w2 = world.clone(); let v = world.view(e0).unwrap(); *v.comp_b = b(3); check(*v.comp_b.0 == 3 && w2.arch_a.len() == 2, M);"),
    "local_view": ("let h = { let mut other = world.clone(); other.view(e0).unwrap() }; check(*h.comp_b.0 == y0, M);",
                   "let mut other = world.clone(); let h = other.view(e0).unwrap(); check(*h.comp_b.0 == y0, M);"),
    "local_slice": ("let h = { let mut other = world.clone(); other.archetype_mut::<ArchA>().get_slice::<CompB>() }; check(*h[0].0 == y0, M);",
                    "let mut other = world.clone(); let h = other.archetype_mut::<ArchA>().get_slice::<CompB>(); check(*h[0].0 == y0, M);"),
    "local_borrow": ("let h = { let other = world.clone(); other.borrow(e0).unwrap() }; check(*h.component::<CompB>().0 == y0, M);",
                     "let other = world.clone(); let h = other.borrow(e0).unwrap(); check(*h.component::<CompB>().0 == y0, M);"),
    "local_iter": ("let mut h = { let mut other = world.clone(); other.arch_a.iter() }; check(*h.next().unwrap().2.0 == y0, M);",
                   "let mut other = world.clone(); let mut h = other.arch_a.iter(); check(*h.next().unwrap().2.0 == y0, M);"),
    "borrow_components": ("let h = { let g = world.borrow(e0).unwrap(); let r = g.component_mut::<CompB>(); let x: &mut CompB = &mut *{ r }; x }; check(*h.0 == y0, M); ",
                          "let g = world.borrow(e0).unwrap(); let mut r = g.component_mut::<CompB>(); let x: &mut CompB = &mut *r; check(*x.0 == y0, M);"),
    "generic_view": ("fn two<A: Archetype, W: World>(w: &mut W, e: Entity<A>) -> (A::View<'_>, A::View<'_>) where W: WorldHas<A>, A: ArchetypeCanResolve<Entity<A>> { (w.archetype_mut::<A>().view(e).unwrap(), w.archetype_mut::<A>().view(e).unwrap()) }\n"
                     "    let (p, q) = two::<ArchA, EcsWorld>(&mut world, e0); *p.comp_b.0 = 1; *q.comp_b.0 = 2; check(*p.comp_b.0 == 1, M);",
                     "fn one<A: Archetype, W: World>(w: &mut W, e: Entity<A>) -> A::View<'_> where W: WorldHas<A>, A: ArchetypeCanResolve<Entity<A>> { w.archetype_mut::<A>().view(e).unwrap() }\n"
                     "    let p = one::<ArchA, EcsWorld>(&mut world, e0); *p.comp_b.0 = 1; check(*p.comp_b.0 == 1, M);"),
    "static_view": ("fn keep<A: Archetype>(a: &mut A, e: Entity<A>) -> A::View<'static> where A: ArchetypeCanResolve<Entity<A>> { a.view(e).unwrap() }\n    let p = keep(&mut world.arch_a, e0); drop(world); check(*p.comp_b.0 == y0, M);",
                    "fn keep<'a, A: Archetype>(a: &'a mut A, e: Entity<A>) -> A::View<'a> where A: ArchetypeCanResolve<Entity<A>> { a.view(e).unwrap() }\n    let p = keep(&mut world.arch_a, e0); check(*p.comp_b.0 == y0, M); drop(world);"),
    "static_borrow": ("fn keep<A: Archetype>(a: &A, e: Entity<A>) -> A::Borrow<'static> where A: ArchetypeCanResolve<Entity<A>> { a.borrow(e).unwrap() }\n    let p = keep(&world.arch_a, e0); drop(world); check(*p.component::<CompB>().0 == y0, M);",
                      "fn keep<'a, A: Archetype>(a: &'a A, e: Entity<A>) -> A::Borrow<'a> where A: ArchetypeCanResolve<Entity<A>> { a.borrow(e).unwrap() }\n    let p = keep(&world.arch_a, e0); check(*p.component::<CompB>().0 == y0, M); drop(world);"),
    "static_slice": ("fn keep<A: ArchetypeHas<CompB>>(a: &mut A) -> &'static [CompB] { a.get_slice::<CompB>() }\n    let p = keep(&mut world.arch_a); drop(world); check(*p[0].0 == y0, M);",
                     "fn keep<'a, A: ArchetypeHas<CompB>>(a: &'a mut A) -> &'a [CompB] { a.get_slice::<CompB>() }\n    let p = keep(&mut world.arch_a); check(*p[0].0 == y0, M); drop(world);"),
    "static_ref": ("fn keep<A: ArchetypeHas<CompB>>(a: &A) -> std::cell::Ref<'static, [CompB]> { a.borrow_slice::<CompB>() }\n    let p = keep(&world.arch_a); drop(world); check(*p[0].0 == y0, M);",
                   "fn keep<'a, A: ArchetypeHas<CompB>>(a: &'a A) -> std::cell::Ref<'a, [CompB]> { a.borrow_slice::<CompB>() }\n    let p = keep(&world.arch_a); check(*p[0].0 == y0, M); drop(p); drop(world);"),
    "static_entities": ("fn keep<A: Archetype>(a: &A) -> &'static [Entity<A>] { a.entities() }\n    let p = keep(&world.arch_a); drop(world); check(p[0] == e0, M);",
                        "fn keep<'a, A: Archetype>(a: &'a A) -> &'a [Entity<A>] { a.entities() }\n    let p = keep(&world.arch_a); check(p[0] == e0, M); drop(world);"),
    "components_two": ("let mut c = world.destroy(e0).unwrap(); let p = c.get_mut::<CompB>(); let q = c.get_mut::<CompB>(); *p.0 = 1; *q.0 = 2; check(*p.0 == 1, M);",
                       "let mut c = world.destroy(e0).unwrap(); let p = c.get_mut::<CompB>(); *p.0 = 1; check(*c.get::<CompB>().0 == 1, M);"),
    "components_escape": ("let p = { let c = world.destroy(e0).unwrap(); c.get::<CompB>() }; check(*p.0 == y0, M);",
                          "let c = world.destroy(e0).unwrap(); let p = c.get::<CompB>(); check(*p.0 == y0, M);"),
}
# two accesses to one component in one query, at least one of them mutable; and a change from inside a query
for m, ref, end in (("ecs_find!", "world, e0, ", ""), ("ecs_iter!", "world, ", ""), ("ecs_iter_destroy!", "world, ", "EcsStepDestroy::Continue"),
                    ("ecs_find_borrow!", "world, e0, ", ""), ("ecs_iter_borrow!", "world, ", "")):
    n = m[4:-1]
    body = lambda p, q, act: "%s(%s|%s, %s| { %s %s });" % (m, ref, p, q, act, end)
    mm = "*p.0 = 1; *q.0 = 2; check(*p.0 == 1, M);"
    SOLO["both_mut_" + n] = (body("p: &mut CompB", "q: &mut CompB", mm), body("p: &mut CompB", "q: &mut CompA", "*p.0 = 1; q.0 = 2; check(*p.0 == 1, M);"))
    SOLO["ref_mut_" + n] = (body("p: &CompB", "q: &mut CompB", "let x = *p.0; *q = b(!x); check(*p.0 == x, M);"), body("p: &CompB", "q: &mut CompA", "let x = *p.0; q.0 = !x; check(*p.0 == x, M);"))
    SOLO["mut_ref_" + n] = (body("q: &mut CompB", "p: &CompB", "let x = *p.0; *q = b(!x); check(*p.0 == x, M);"), body("q: &mut CompA", "p: &CompB", "let x = *p.0; q.0 = !x; check(*p.0 == x, M);"))
    SOLO["oneof_mut_" + n] = (body("p: &mut OneOf<CompB, CompC>", "q: &mut CompB", mm), body("p: &mut OneOf<CompB, CompC>", "q: &mut CompA", "*p.0 = 1; q.0 = 2; check(*p.0 == 1, M);"))
    one = lambda act: "%s(%s|p: &CompB| { let x = *p.0; %s check(*p.0 == x, M); %s });" % (m, ref, act, end)
    for c, st in (("create", "world.create::<ArchA>((CompA(5), b(6)));"), ("destroy", "world.destroy(e0); world.destroy(e1);"),
                  ("mutate", "*world.view(e0).unwrap().comp_b = b(!x); if let Some(v) = world.view(e1) { *v.comp_b = b(!x); }"), ("assign", "world = EcsWorld::new();"),
                  ("acreate", "world.arch_a.create((CompA(5), b(6)));"), ("nested", "ecs_iter!(world, |q: &mut CompB| { *q = b(!x); });"),
                  ("nested_destroy", "ecs_iter_destroy!(world, |_: &CompB| EcsStepDestroy::ContinueDestroy);")):
        SOLO["inside_%s_%s" % (c, n)] = (one(st), one("let _ = x;"))
# handle parameters are never mutable
for m, ref, end in (("ecs_find!", "world, e0, ", ""), ("ecs_iter!", "world, ", ""), ("ecs_iter_destroy!", "world, ", "EcsStepDestroy::Continue"),
                    ("ecs_find_borrow!", "world, e0, ", ""), ("ecs_iter_borrow!", "world, ", "")):
    n = m[4:-1]
    for k, t in (("entity", "Entity<ArchA>"), ("wild", "Entity<_>")):
        SOLO["handle_%s_%s" % (k, n)] = ("%s(%s|h: &mut %s, _: &CompB| { *h = e1; %s }); check(world.arch_a.entities()[0] == e0, M);" % (m, ref, t, end),
                                         "%s(%s|h: &%s, _: &CompB| { check(*h == e0 || *h == e1, M); %s }); check(world.arch_a.entities()[0] == e0, M);" % (m, ref, t, end))
MSG = {
    "hold": "C18: a reference kept across a change of the world no longer refers to what it did",
    "solo": "C18: two paths to one value, one of them mutable",
    "event": "C18: an event kept across a change of the log",
}
COMPC = "#[derive(Clone)]\npub struct CompC(pub Box<u32>);\n"


def shared(s):
    """The same statement through `w: &EcsWorld`, and shared references to its archetypes."""
    s = s.replace(".archetype_mut::<", ".archetype::<")
    return re.sub(r"&mut world\b", "w", re.sub(r"\bworld\b", "w", s).replace("&mut w,", "w,").replace("&mut w)", "w)"))


def twin(setup, init, use, want, m):
    """The reference ends before the change, whichever of all changes it is."""
    return setup + "    let got = {\n        %s\n        let x = %s;\n        x\n    };\n    check(got == %s, \"%s\");\n    change(world, e0);\n" % (init, use, want, m)


def pairs(events):
    """The unsound programs: (name, body)"""
    out = []
    for h, (hx, init, use, want) in HOLD.items():
        for c, (cx, st) in CHANGE.items():
            if not hx and not cx:
                continue
            bad = "    %s\n    %s\n    check(%s == %s, \"%s\");\n" % (init, st, use, want, MSG["hold"])
            out.append(("hold_%s__%s" % (h, c), SETUP + bad))
            if c not in ("drop", "assign", "field_assign"):
                out.append(("shared_%s__%s" % (h, c), SETUP + "    let w: &EcsWorld = &world;\n" + shared(bad)))
    for h, (m, init, use, want, tinit, tuse) in LEAK.items():
        for c, (cx, st) in CHANGE.items():
            if not cx and m.endswith("_borrow!"):
                continue
            out.append(("hold_%s__%s" % (h, c), SETUP + "    %s\n    %s\n    check(%s == %s, \"%s\");\n" % (init, st, use, want, MSG["hold"])))
    if events:
        for h, (hx, init, use, want) in EVENT.items():
            for c in EVENT_CHANGE:
                out.append(("event_%s__%s" % (h, c), SETUP + FULL + "    %s\n    %s\n    check(%s == %s, \"%s\");\n" % (init, CHANGE[c][1], use, want, MSG["event"])))
    for s, (bad, _) in SOLO.items():
        out.append(("solo_" + s, SETUP + "    " + bad.replace("M)", "\"%s\")" % MSG["solo"]) + "\n"))
    return out


def twins(events):
    """The sound programs: (name, body)"""
    out = []
    for h, (hx, init, use, want) in HOLD.items():
        out.append(("hold_" + h, twin(SETUP, init, use, want, MSG["hold"])))
    for h, (m, init, use, want, tinit, tuse) in LEAK.items():
        out.append(("hold_" + h, twin(SETUP, tinit, tuse, want, MSG["hold"])))
    if events:
        for h, (hx, init, use, want) in EVENT.items():
            out.append(("event_" + h, twin(SETUP + FULL, init, use, want, MSG["event"])))
    for s, (_, good) in SOLO.items():
        out.append(("solo_" + s, SETUP + "    " + good.replace("M)", "\"%s\")" % MSG["solo"]) + "\n"))
    return out


def fn(name, body):
    return "pub fn %s(y0: u32, y1: u32) {\n%s}\n" % (name, body)


def admission_lib(names, events):
    """A crate of unsound programs; and, per program, its first and last line."""
    t = "#![forbid(unsafe_code)]\n#![allow(warnings)]\npub fn check(_: bool, _: &str) {}\n" + COMPC + WORLD
    lines = {}
    for n, bad in pairs(events):
        if n in names:
            lo = t.count("\n") + 1
            t += fn(n, bad)
            lines[n] = (lo, t.count("\n"))
    return t, lines


def put(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


GROUPS = ("hold", "solo", "event")


def write_lib(admitted, events, src):
    ts = twins(events)
    t = "// written by gen.py\nuse crate::rt::*;\n" + COMPC + WORLD
    t += "pub fn change(mut world: EcsWorld, e0: Entity<ArchA>) {\n    match pick(\"change\", %d) {\n" % len(CHANGE)
    for i, (c, (x, st)) in enumerate(CHANGE.items()):
        t += "        %s => { %s }\n" % (i if i + 1 < len(CHANGE) else "_", st)
    t += "    }\n}\n"
    for n, body in ts:
        t += fn("t_" + n, body)
    for n, bad in pairs(events):
        if n in admitted:
            t += fn("u_" + n, bad)
    head = "    let (y0, y1) = (sym32(\"y0\"), sym32(\"y1\"));\n    assume(y0 != y1 && y0 != 7 && y1 != 7 && y0 < 1000000);\n"
    for g in GROUPS:
        names = [n for n, _ in ts if n.startswith(g + "_")]  # (without the feature there are no events)
        t += "pub fn twins_%s() {\n%s    match pick(\"case\", %d) {\n" % (g, head, len(names))
        for j, n in enumerate(names):
            t += "        %s => t_%s(y0, y1),\n" % (j if j + 1 < len(names) else "_", n)
        if not names:
            t += "        _ => {}\n"
        t += "    }\n    cover(\"end\");\n}\n"
    t += "pub fn unsound() {\n%s    match pick(\"case\", %d) {\n" % (head, max(1, len(admitted[:200])))
    for j, n in enumerate(admitted[:200]):
        t += "        %d => drop(catch(|| u_%s(y0, y1))),\n" % (j, n)
    t += "        _ => {}\n    }\n    cover(\"end\");\n}\n"
    put(os.path.join(src, "cases_events.rs" if events else "cases_plain.rs"), t)


if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    ev = len(sys.argv) > 1 and sys.argv[1] == "events"
    write_lib(sys.argv[2:], ev, os.path.join(here, "src"))
    print(len(pairs(ev)), len(twins(ev)))
