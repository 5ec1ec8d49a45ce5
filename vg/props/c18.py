"""C18: expansions are unsafe-free; unsound client programs do not compile.

Type-level: compile-fail witnesses paired with compiling twins, auto-trait assertions, and a scan of every
token the generators can emit plus the macro-expanded text of a witness that uses every macro."""
import os, re
from .. import build, rusttok
from .c15 import Src

EXPLAIN = ('Rules: (1) no quote!/format_ident!/string from which the macro crate emits code contains the token '
           '`unsafe` (all generator sources are tokenised), and the expansion of a client using every macro and '
           'parameter kind contains none and compiles under forbid(unsafe_code); (2) every unsound client program '
           'of the corpus is rejected by the compiler inside its own function while its twin, which differs only in '
           'the offending part, compiles; (3) Send/Sync/Copy assertions on worlds, archetypes and handles.')
TRUSTED = ['rustc borrow checker, trait solver and unsafe_code lint']

WORLD = '''#![allow(dead_code, unused)]
use gecs::prelude::*;
pub struct CompA(pub u32);
pub struct CompB(pub u32);
pub struct CompC(pub Vec<u8>);
ecs_world! {
    ecs_archetype!(ArchA, CompA, CompB);
    ecs_archetype!(ArchB, CompA, CompC);
}
pub fn consume<T>(_t: T) {}
'''

REFS = [  # name, type of world binding, expression
    ('view', 'world.view(e).unwrap()'),
    ('archetype view', 'world.arch_a.view(e).unwrap()'),
    ('archetype view by dynamic key', 'world.arch_a.view(e.into_any()).unwrap()'),
    ('view field', 'world.view(e).unwrap().comp_a'),
    ('view entity', 'world.view(e).unwrap().entity'),
    ('borrow', 'world.borrow(e).unwrap()'),
    ('archetype borrow', 'world.arch_a.borrow(e).unwrap()'),
    ('iter', 'world.arch_a.iter()'),
    ('iter item', 'world.arch_a.iter().next().unwrap()'),
    ('iter item component', 'world.arch_a.iter().next().unwrap().1'),
    ('iter item entity', 'world.arch_a.iter().next().unwrap().0'),
    ('iter_mut', 'world.arch_a.iter_mut()'),
    ('iter_mut item', 'world.arch_a.iter_mut().next().unwrap()'),
    ('iter_mut item component', 'world.arch_a.iter_mut().next().unwrap().2'),
    ('iter_mut item entity', 'world.arch_a.iter_mut().next().unwrap().0'),
    ('collected iter items', 'world.arch_a.iter().collect::<Vec<_>>()'),
    ('collected iter_mut items', 'world.arch_a.iter_mut().collect::<Vec<_>>()'),
    ('get_slice', 'world.arch_a.get_slice::<CompA>()'),
    ('get_slice element', '&world.arch_a.get_slice::<CompA>()[0]'),
    ('get_slice_mut', 'world.arch_a.get_slice_mut::<CompA>()'),
    ('get_slice_mut element', '&mut world.arch_a.get_slice_mut::<CompB>()[0]'),
    ('borrow_slice', 'world.arch_a.borrow_slice::<CompA>()'),
    ('borrow_slice_mut', 'world.arch_a.borrow_slice_mut::<CompB>()'),
    ('get_all_slices_mut', 'world.arch_a.get_all_slices_mut()'),
    ('get_all_slices_mut field', 'world.arch_a.get_all_slices_mut().comp_b'),
    ('get_all_slices_mut entities', 'world.arch_a.get_all_slices_mut().entity'),
    ('entities', 'world.arch_a.entities()'),
    ('entity of entities', '&world.arch_a.entities()[0]'),
    ('archetype', 'world.archetype::<ArchA>()'),
    ('archetype_mut', 'world.archetype_mut::<ArchA>()'),
    ('entities through archetype', 'world.archetype::<ArchA>().entities()'),
]
REFS2 = [  # two-step
    ('view component', 'let v = world.view(e).unwrap();', 'v.component::<CompA>()'),
    ('view component_mut', 'let mut v = world.view(e).unwrap();', 'v.component_mut::<CompB>()'),
    ('borrow component', 'let v = world.borrow(e).unwrap();', 'v.component::<CompA>()'),
    ('borrow component_mut', 'let v = world.borrow(e).unwrap();', 'v.component_mut::<CompB>()'),
    ('borrow entity', 'let v = world.borrow(e).unwrap();', 'v.entity()'),
]
EVREFS = [
    ('world iter_created', 'world.iter_created()'),
    ('world iter_created item', 'world.iter_created().next().unwrap()'),
    ('world iter_destroyed', 'world.iter_destroyed()'),
    ('archetype iter_created', 'world.arch_a.iter_created()'),
    ('archetype iter_destroyed item', 'world.arch_a.iter_destroyed().next().unwrap()'),
]
CHANGES = [
    ('create', 'world.create::<ArchA>((CompA(1), CompB(1)));'),
    ('archetype create', 'world.arch_a.create((CompA(1), CompB(1)));'),
    ('create_within_capacity', 'let _ = world.create_within_capacity::<ArchA>((CompA(1), CompB(1)));'),
    ('destroy', 'world.destroy(e);'),
    ('archetype destroy', 'world.arch_a.destroy(e);'),
    ('destroy by dynamic key', 'world.destroy(e.into_any());'),
    ('ecs_iter_destroy', 'ecs_iter_destroy!(world, |_: &CompB| EcsStepDestroy::ContinueDestroy);'),
    ('replace world', '*world = EcsWorld::new();'),
    ('replace archetype', 'world.arch_a = ArchA::new();'),
]

# (name, bad function body, good function body); signature fn f(world: &mut EcsWorld, e: Entity<ArchA>)
PAIRS = [
    # the same component mutably twice in one query
    ('ecs_find twice &mut', 'ecs_find!(world, e, |a: &mut CompA, b: &mut CompA| { a.0 += b.0; });',
     'ecs_find!(world, e, |a: &mut CompA, b: &mut CompB| { a.0 += b.0; });'),
    ('ecs_find & and &mut', 'ecs_find!(world, e, |a: &CompA, b: &mut CompA| { b.0 += a.0; });',
     'ecs_find!(world, e, |a: &CompB, b: &mut CompA| { b.0 += a.0; });'),
    ('ecs_iter twice &mut', 'ecs_iter!(world, |a: &mut CompA, b: &mut CompA| { a.0 += b.0; });',
     'ecs_iter!(world, |a: &mut CompA, b: &mut CompB| { a.0 += b.0; });'),
    ('ecs_iter &mut and &', 'ecs_iter!(world, |a: &mut CompA, b: &CompA| { a.0 += b.0; });',
     'ecs_iter!(world, |a: &mut CompA, b: &CompB| { a.0 += b.0; });'),
    ('ecs_iter & and &mut', 'ecs_iter!(world, |a: &CompA, b: &mut CompA| { b.0 += a.0; });',
     'ecs_iter!(world, |a: &CompA, b: &CompA| { consume(b.0 + a.0); });'),
    ('ecs_iter_destroy twice &mut', 'ecs_iter_destroy!(world, |a: &mut CompA, b: &mut CompA| { a.0 += b.0; EcsStepDestroy::Continue });',
     'ecs_iter_destroy!(world, |a: &mut CompA, b: &mut CompB| { a.0 += b.0; EcsStepDestroy::Continue });'),
    ('ecs_iter_destroy & and &mut', 'ecs_iter_destroy!(world, |a: &CompA, b: &mut CompA| { b.0 += a.0; EcsStepDestroy::Continue });',
     'ecs_iter_destroy!(world, |a: &CompA, b: &mut CompB| { b.0 += a.0; EcsStepDestroy::Continue });'),
    ('ecs_iter OneOf aliasing', 'ecs_iter!(world, |a: &mut OneOf<CompB, CompC>, b: &mut CompB| { consume(a); consume(b); });',
     'ecs_iter!(world, |a: &mut OneOf<CompB, CompC>, b: &mut CompA| { consume(a); consume(b); });'),
    ('ecs_find OneOf aliasing', 'ecs_find!(world, e, |a: &mut OneOf<CompA, CompC>, b: &mut CompA| { consume(b); consume(a); });',
     'ecs_find!(world, e, |a: &mut OneOf<CompB, CompC>, b: &mut CompA| { consume(b); consume(a); });'),
    # closure arguments must not outlive the call
    ('ecs_find escaping ref', 'let mut out: Vec<&CompA> = vec![]; ecs_find!(world, e, |c: &CompA| { out.push(c); });',
     'let mut out: Vec<u32> = vec![]; ecs_find!(world, e, |c: &CompA| { out.push(c.0); });'),
    ('ecs_find escaping entity', 'let mut out: Vec<&Entity<ArchA>> = vec![]; ecs_find!(world, e, |c: &Entity<ArchA>| { out.push(c); });',
     'let mut out: Vec<Entity<ArchA>> = vec![]; ecs_find!(world, e, |c: &Entity<ArchA>| { out.push(*c); });'),
    ('ecs_find_borrow escaping ref', 'let mut out: Vec<&CompA> = vec![]; ecs_find_borrow!(world, e, |c: &CompA| { out.push(c); });',
     'let mut out: Vec<u32> = vec![]; ecs_find_borrow!(world, e, |c: &CompA| { out.push(c.0); });'),
    ('ecs_iter escaping ref', 'let mut out: Vec<&CompA> = vec![]; ecs_iter!(world, |c: &CompA| { out.push(c); });',
     'let mut out: Vec<u32> = vec![]; ecs_iter!(world, |c: &CompA| { out.push(c.0); });'),
    ('ecs_iter escaping mut ref', 'let mut out: Vec<&mut CompA> = vec![]; ecs_iter!(world, |c: &mut CompA| { out.push(c); });',
     'let mut out: Vec<u32> = vec![]; ecs_iter!(world, |c: &mut CompA| { out.push(c.0); });'),
    ('ecs_iter_borrow escaping ref', 'let mut out: Vec<&CompA> = vec![]; ecs_iter_borrow!(world, |c: &CompA| { out.push(c); });',
     'let mut out: Vec<u32> = vec![]; ecs_iter_borrow!(world, |c: &CompA| { out.push(c.0); });'),
    ('ecs_iter_destroy escaping ref', 'let mut out: Vec<&CompA> = vec![]; ecs_iter_destroy!(world, |c: &CompA| { out.push(c); EcsStepDestroy::Continue });',
     'let mut out: Vec<u32> = vec![]; ecs_iter_destroy!(world, |c: &CompA| { out.push(c.0); EcsStepDestroy::Continue });'),
    ('ecs_iter_destroy escaping entity', 'let mut out: Vec<&Entity<ArchA>> = vec![]; ecs_iter_destroy!(world, |c: &Entity<ArchA>| { out.push(c); EcsStepDestroy::ContinueDestroy });',
     'let mut out: Vec<Entity<ArchA>> = vec![]; ecs_iter_destroy!(world, |c: &Entity<ArchA>| { out.push(*c); EcsStepDestroy::ContinueDestroy });'),
    # structural change from inside a query
    ('destroy inside ecs_iter', 'ecs_iter!(world, |x: &Entity<ArchA>, c: &CompA| { world.destroy(*x); });',
     'ecs_iter!(world, |x: &Entity<ArchA>, c: &CompA| { consume(*x); });'),
    ('destroy inside ecs_iter on the archetype', 'ecs_iter!(world, |x: &Entity<ArchA>, c: &CompA| { world.arch_a.destroy(*x); });',
     'ecs_iter!(world, |x: &Entity<ArchA>, c: &CompA| { world.arch_b.create((CompA(0), CompC(vec![]))); });'),
    ('create inside ecs_iter', 'ecs_iter!(world, |c: &CompA| { world.create::<ArchA>((CompA(1), CompB(1))); });',
     'ecs_iter!(world, |c: &CompB| { world.arch_b.create((CompA(1), CompC(vec![]))); });'),
    ('create inside ecs_iter_borrow', 'ecs_iter_borrow!(world, |c: &CompA| { world.create::<ArchA>((CompA(1), CompB(1))); });',
     'ecs_iter_borrow!(world, |c: &CompA| { consume(world.arch_a.len()); });'),
    ('destroy inside ecs_find', 'ecs_find!(world, e, |c: &CompA| { world.destroy(e); consume(c); });',
     'ecs_find!(world, e, |c: &CompA| { consume(c); });'),
    ('destroy inside ecs_find_borrow', 'ecs_find_borrow!(world, e, |c: &CompA| { world.destroy(e); consume(c); });',
     'ecs_find_borrow!(world, e, |c: &CompA| { consume(world.arch_a.len()); consume(c); });'),
    ('create inside ecs_iter_destroy', 'ecs_iter_destroy!(world, |c: &CompB| { world.arch_a.create((CompA(1), CompB(1))); EcsStepDestroy::Continue });',
     'ecs_iter_destroy!(world, |c: &CompB| { world.arch_b.create((CompA(1), CompC(vec![]))); EcsStepDestroy::Continue });'),
    # two live mutable accesses
    ('two views', 'let v = world.arch_a.view(e).unwrap(); let w = world.arch_a.view(e).unwrap(); consume(v); consume(w);',
     'let v = world.arch_a.view(e).unwrap(); consume(v); let w = world.arch_a.view(e).unwrap(); consume(w);'),
    ('view component_mut twice', 'let mut v = world.view(e).unwrap(); let a = v.component_mut::<CompA>(); let b = v.component_mut::<CompA>(); consume(a); consume(b);',
     'let mut v = world.view(e).unwrap(); let a = v.component_mut::<CompA>(); consume(a); let b = v.component_mut::<CompA>(); consume(b);'),
    ('view component and component_mut', 'let mut v = world.view(e).unwrap(); let a = v.component::<CompA>(); let b = v.component_mut::<CompA>(); consume(a); consume(b);',
     'let mut v = world.view(e).unwrap(); let a = v.component::<CompA>(); let b = v.component::<CompA>(); consume(a); consume(b);'),
    ('iter_mut twice', 'let a = world.arch_a.iter_mut(); let b = world.arch_a.iter_mut(); consume(a); consume(b);',
     'let a = world.arch_a.iter_mut(); let b = world.arch_b.iter_mut(); consume(a); consume(b);'),
    ('iter and iter_mut', 'let a = world.arch_a.iter(); let b = world.arch_a.iter_mut(); consume(a); consume(b);',
     'let a = world.arch_a.iter(); consume(a); let b = world.arch_a.iter_mut(); consume(b);'),
    ('iter item and iter_mut item', 'let a = world.arch_a.iter().next(); let b = world.arch_a.iter_mut().next(); consume(a); consume(b);',
     'let a = world.arch_a.iter().next(); consume(a); let b = world.arch_a.iter_mut().next(); consume(b);'),
    ('get_slice_mut twice', 'let a = world.arch_a.get_slice_mut::<CompA>(); let b = world.arch_a.get_slice_mut::<CompA>(); consume(a); consume(b);',
     'let a = world.arch_a.get_slice_mut::<CompA>(); let b = world.arch_b.get_slice_mut::<CompA>(); consume(a); consume(b);'),
    ('get_slice and get_slice_mut', 'let a = world.arch_a.get_slice::<CompA>(); let b = world.arch_a.get_slice_mut::<CompA>(); consume(a); consume(b);',
     'let a = world.arch_a.get_slice::<CompA>(); let b = world.arch_b.get_slice_mut::<CompA>(); consume(a); consume(b);'),
    ('get_all_slices_mut twice', 'let a = world.arch_a.get_all_slices_mut(); let b = world.arch_a.get_all_slices_mut(); consume(a.comp_a); consume(b.comp_a);',
     'let a = world.arch_a.get_all_slices_mut(); consume(a.comp_a); let b = world.arch_a.get_all_slices_mut(); consume(b.comp_a);'),
    ('get_slice_mut over a borrow', 'let b = world.arch_a.borrow_slice::<CompA>(); let a = world.arch_a.get_slice_mut::<CompA>(); consume(a); consume(b);',
     'let b = world.arch_a.borrow_slice::<CompA>(); let a = world.arch_b.get_slice_mut::<CompA>(); consume(a); consume(b);'),
    ('view over a borrow guard', 'let b = world.arch_a.borrow_slice_mut::<CompA>(); let a = world.arch_a.view(e); consume(a); consume(b);',
     'let b = world.arch_a.borrow_slice_mut::<CompA>(); consume(b); let a = world.arch_a.view(e); consume(a);'),
    ('write through shared view', 'let v = world.view(e).unwrap(); v.component::<CompA>().0 = 1;',
     'let mut v = world.view(e).unwrap(); v.component_mut::<CompA>().0 = 1;'),
    ('write through iter item', 'for (x, a, b) in world.arch_a.iter() { a.0 = 1; }', 'for (x, a, b) in world.arch_a.iter_mut() { a.0 = 1; }'),
    ('write through get_slice', 'world.arch_a.get_slice::<CompA>()[0].0 = 1;', 'world.arch_a.get_slice_mut::<CompA>()[0].0 = 1;'),
    ('write through borrow_slice', 'world.arch_a.borrow_slice::<CompA>()[0].0 = 1;', 'world.arch_a.borrow_slice_mut::<CompA>()[0].0 = 1;'),
    ('write entity through entities', 'world.arch_a.entities()[0] = e;', 'consume(world.arch_a.entities()[0] == e);'),
    ('write entity through slices', 'world.arch_a.get_all_slices_mut().entity[0] = e;', 'consume(world.arch_a.get_all_slices_mut().entity[0] == e);'),
    ('write entity through view', '*world.view(e).unwrap().entity = e;', 'consume(*world.view(e).unwrap().entity == e);'),
    ('write entity through iter_mut', 'for (x, a, b) in world.arch_a.iter_mut() { *x = e; }', 'for (x, a, b) in world.arch_a.iter_mut() { consume(*x == e); }'),
    ('write through & query parameter', 'ecs_iter!(world, |a: &CompA| { a.0 = 1; });', 'ecs_iter!(world, |a: &mut CompA| { a.0 = 1; });'),
    ('write through & find parameter', 'ecs_find!(world, e, |a: &CompA| { a.0 = 1; });', 'ecs_find!(world, e, |a: &mut CompA| { a.0 = 1; });'),
    ('write through & borrow parameter', 'ecs_iter_borrow!(world, |a: &CompA| { a.0 = 1; });', 'ecs_iter_borrow!(world, |a: &mut CompA| { a.0 = 1; });'),
    ('write entity query parameter', 'ecs_iter!(world, |x: &Entity<ArchA>| { *x = e; });', 'ecs_iter!(world, |x: &Entity<ArchA>| { consume(*x == e); });'),
    # references do not outlive the world
    ('view outlives world', 'let v = { let mut w = EcsWorld::new(); w.view(e) }; consume(v);',
     'let mut w = EcsWorld::new(); let v = w.view(e); consume(v);'),
    ('iter item outlives world', 'let v = { let mut w = EcsWorld::new(); w.arch_a.iter_mut().next() }; consume(v);',
     'let mut w = EcsWorld::new(); let v = w.arch_a.iter_mut().next(); consume(v);'),
    ('slice outlives world', 'let v = { let mut w = EcsWorld::new(); w.arch_a.get_slice::<CompA>() }; consume(v);',
     'let mut w = EcsWorld::new(); let v = w.arch_a.get_slice::<CompA>(); consume(v);'),
    ('entities outlive world', 'let v = { let w = EcsWorld::new(); w.arch_a.entities() }; consume(v);',
     'let w = EcsWorld::new(); let v = w.arch_a.entities(); consume(v);'),
    ('static view', 'let v: Option<ArchAView<\'static>> = world.view(e); consume(v);', 'let v = world.view(e); consume(v);'),
    ('static slice', 'let v: &\'static [CompA] = world.arch_a.get_slice::<CompA>(); consume(v);', 'let v: &[CompA] = world.arch_a.get_slice::<CompA>(); consume(v);'),
    ('world used after move', 'let mut w = EcsWorld::new(); let v = w.arch_a.get_slice_mut::<CompA>(); drop(w); consume(v);',
     'let mut w = EcsWorld::new(); let v = w.arch_a.get_slice_mut::<CompA>(); consume(v); drop(w);'),
    # handles are not forgeable between archetypes without saying so
    ('foreign typed handle', 'let b: Entity<ArchB> = e; consume(world.contains(b));', 'let b: Entity<ArchA> = e; consume(world.contains(b));'),
    ('mutable entity from a dynamic reference', 'let x: &EntityAny = (&e).into(); let y: &mut EntityAny = x; consume(y);', 'let x: &EntityAny = (&e).into(); let y: &EntityAny = x; consume(y);'),
    # threads
    ('share world between threads', 'let w = EcsWorld::new(); std::thread::scope(|s| { s.spawn(|| { consume(w.arch_a.len()); }); });',
     'let w = EcsWorld::new(); std::thread::scope(|s| { s.spawn(move || { consume(w.arch_a.len()); }); });'),
]

MUTENT = ['Entity<ArchA>', 'Entity<_>', 'EntityAny', 'EntityDirect<ArchA>', 'EntityDirect<_>', 'EntityDirectAny']

AUTO_GOOD = '''#![allow(dead_code, unused)]
use gecs::prelude::*;
use std::{cell::Cell, rc::Rc};
pub struct Plain(pub u32);
pub struct NotSync(pub Cell<u32>);
pub struct NotSend(pub Rc<u32>);
pub mod m1 { use super::*; ecs_world! { ecs_name!(WPlain); ecs_archetype!(APlain, Plain); } }
pub mod m2 { use super::*; ecs_world! { ecs_name!(WCell); ecs_archetype!(ACell, Plain, NotSync); ecs_archetype!(AOther, Plain); } }
pub mod m3 { use super::*; ecs_world! { ecs_name!(WRc); ecs_archetype!(ARc, Plain, NotSend); ecs_archetype!(ASafe, Plain); } }
use m1::{WPlain, APlain}; use m2::{WCell, ACell}; use m3::{WRc, ARc};
fn sendv<T: Send>(_t: T) {} fn syncv<T: Sync>(_t: T) {} fn use_<T>(_t: T) {}
fn send<T: Send>() {} fn sync<T: Sync>() {} fn handle<T: Copy + Send + Sync + Eq + std::hash::Hash + 'static>() {}
'''
AUTO = [  # name, good, bad
    ('world of plain components is Send, not Sync', 'send::<WPlain>();', 'sync::<WPlain>();'),
    ('archetype of plain components is Send, not Sync', 'send::<APlain>();', 'sync::<APlain>();'),
    ('world with a !Sync component is Send, not Sync', 'send::<WCell>();', 'sync::<WCell>();'),
    ('archetype with a !Sync component is Send, not Sync', 'send::<ACell>();', 'sync::<ACell>();'),
    ('world with a !Send component is not Send', 'send::<WPlain>();', 'send::<WRc>();'),
    ('archetype with a !Send component is not Send', 'send::<m3::ASafe>();', 'send::<ARc>();'),
    ('world with a !Send component is not Sync', 'send::<WPlain>();', 'sync::<WRc>();'),
    ('references to a world are not Send', 'send::<&mut WPlain>();', 'send::<&WPlain>();'),
    ('entity of a !Send archetype', 'handle::<Entity<ARc>>();', 'handle::<ARc>();'),
    ('direct entity of a !Send archetype', 'handle::<EntityDirect<ARc>>();', 'handle::<WRc>();'),
    ('entity of a !Sync archetype', 'handle::<Entity<ACell>>();', 'handle::<ACell>();'),
    ('direct entity of a !Sync archetype', 'handle::<EntityDirect<ACell>>();', 'handle::<WCell>();'),
    ('iter of a !Send archetype is not Send', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); use_(w.a_rc.iter());', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); sendv(w.a_rc.iter());'),
    ('iter_mut of a !Send archetype is not Send', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); use_(w.a_rc.iter_mut());', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); sendv(w.a_rc.iter_mut());'),
    ('iter item of a !Send archetype is not Send', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); use_(w.a_rc.iter().next());', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); sendv(w.a_rc.iter().next());'),
    ('iter_mut item of a !Send archetype is not Send', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); use_(w.a_rc.iter_mut().next());', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); sendv(w.a_rc.iter_mut().next());'),
    ('view of a !Send archetype is not Send', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); use_(w.view(e));', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); sendv(w.view(e));'),
    ('borrow of a !Send archetype is not Send', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); use_(w.borrow(e));', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); sendv(w.borrow(e));'),
    ('all slices of a !Send archetype is not Send', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); use_(w.a_rc.get_all_slices_mut());', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); sendv(w.a_rc.get_all_slices_mut());'),
    ('slice of a !Send archetype is not Send', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); use_(w.a_rc.get_slice_mut::<NotSend>());', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); sendv(w.a_rc.get_slice_mut::<NotSend>());'),
    ('borrowed slice of a !Send archetype is not Send', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); use_(w.a_rc.borrow_slice::<NotSend>());', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); sendv(w.a_rc.borrow_slice::<NotSend>());'),
    ('components of a !Send archetype is not Send', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); use_(w.destroy(e));', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); sendv(w.destroy(e));'),
    ('archetype reference of a !Send archetype is not Send', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); use_(w.archetype::<ARc>());', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); sendv(w.archetype::<ARc>());'),
    ('exclusive archetype reference of a !Send archetype is not Send', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); use_(w.archetype_mut::<ARc>());', 'let (w, e): (&mut WRc, Entity<ARc>) = todo!(); sendv(w.archetype_mut::<ARc>());'),
    ('iter of a !Sync archetype is not Send', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); use_(w.a_cell.iter());', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); sendv(w.a_cell.iter());'),
    ('iter item of a !Sync archetype is not Send', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); use_(w.a_cell.iter().next());', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); sendv(w.a_cell.iter().next());'),
    ('slice of a !Sync archetype is not Send', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); use_(w.a_cell.get_slice::<NotSync>());', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); sendv(w.a_cell.get_slice::<NotSync>());'),
    ('borrow of a !Sync archetype is not Send', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); use_(w.borrow(e));', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); sendv(w.borrow(e));'),
    ('borrowed slice of a !Sync archetype is not Send', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); use_(w.a_cell.borrow_slice::<NotSync>());', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); sendv(w.a_cell.borrow_slice::<NotSync>());'),
    ('shared archetype reference of a !Sync archetype is not Send', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); use_(w.archetype::<ACell>());', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); sendv(w.archetype::<ACell>());'),
    ('shared reference to a plain archetype of it of a !Sync archetype is not Send', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); use_(&w.a_other);', 'let (w, e): (&mut WCell, Entity<ACell>) = todo!(); sendv(&w.a_other);'),
    ('borrow of a plain archetype is not Send', 'let (w, e): (&mut WPlain, Entity<APlain>) = todo!(); use_(w.borrow(e));', 'let (w, e): (&mut WPlain, Entity<APlain>) = todo!(); sendv(w.borrow(e));'),
    ('shared archetype reference of a plain archetype is not Send', 'let (w, e): (&mut WPlain, Entity<APlain>) = todo!(); use_(w.archetype::<APlain>());', 'let (w, e): (&mut WPlain, Entity<APlain>) = todo!(); sendv(w.archetype::<APlain>());'),
    ('borrow guard of a plain archetype is not Send', 'let (w, e): (&mut WPlain, Entity<APlain>) = todo!(); use_(w.a_plain.borrow_slice::<Plain>());', 'let (w, e): (&mut WPlain, Entity<APlain>) = todo!(); sendv(w.a_plain.borrow_slice::<Plain>());'),
    ('exclusive borrow guard of a plain archetype is not Send', 'let (w, e): (&mut WPlain, Entity<APlain>) = todo!(); use_(w.a_plain.borrow_slice_mut::<Plain>());', 'let (w, e): (&mut WPlain, Entity<APlain>) = todo!(); sendv(w.a_plain.borrow_slice_mut::<Plain>());'),
    ('dynamic handles', 'handle::<EntityAny>(); handle::<EntityDirectAny>();', 'handle::<WPlain>();'),
]

ALLUSE = '''#![forbid(unsafe_code)]
#![allow(dead_code, unused)]
use gecs::prelude::*;
#[derive(Clone, Default)] pub struct CompA(pub u32);
#[derive(Clone, Default)] pub struct CompB(pub u32);
#[derive(Clone, Default)] pub struct CompC(pub Vec<u8>);
#[derive(Clone, Default)] pub struct CompZ;
ecs_world! {
    ecs_name!(AllWorld);
    #[archetype_id(3)] ecs_archetype!(ArchA, CompA, #[component_id(9)] CompB, #[cfg(any())] CompC);
    #[cfg(all())] ecs_archetype!(ArchB, CompA, CompC, CompZ);
    #[cfg(any())] ecs_archetype!(ArchX, CompA);
}
'''


def all_queries():
    ps = ['a: &CompA', 'a: &mut CompA', 'o: &OneOf<CompB, CompC>', 'o: &mut OneOf<CompB, CompC>', '#[cfg(all())] a: &mut CompA',
          '#[cfg(any())] a: &CompC', 'x: &Entity<ArchA>', 'x: &Entity<_>', 'x: &EntityAny', 'x: &EntityDirect<ArchB>', 'x: &EntityDirect<_>',
          'x: &EntityDirectAny', '_: &CompZ']
    out = []
    for i, p in enumerate(ps + [', '.join(('a: &mut CompA', 'o: &OneOf<CompB, CompC>', 'x: &Entity<_>', 'd: &EntityDirectAny'))]):
        out.append('pub fn i%d(world: &mut AllWorld) { ecs_iter!(world, |%s| {}); ecs_iter_borrow!(world, |%s| {}); '
                   'ecs_iter_destroy!(world, |%s| { EcsStepDestroy::BreakDestroy }); }' % (i, p, p, p))
        for k, t in enumerate(('Entity<ArchB>', 'EntityAny', 'EntityDirect<ArchA>', 'EntityDirectAny')):
            if i in (0, 1, 7, 13):
                out.append('pub fn f%d_%d(world: &mut AllWorld, e: %s) -> Option<u8> { ecs_find!(world, e, |%s| {}); '
                           'ecs_find_borrow!(world, e, |%s| -> u8 { ecs_component_id!(CompA) }) }' % (i, k, t, p, p))
    out.append('pub fn misc(w: &AllWorld) -> AllWorld { let c = AllWorldCapacity { arch_a: 1, arch_b: 2 }; AllWorld::with_capacity(c); '
               'let t = ArchAComponents::default().into_tuple(); let u: (CompA, CompB) = ArchAComponents::from(t).into(); w.clone() }')
    return '\n'.join(out)


def run(ctx):
    ctx.rule('emit', 'no code template, identifier or string of the macro crate can emit the token `unsafe`')
    ctx.rule('expansion', 'the expansion of every macro and parameter kind is unsafe-free and accepted under forbid(unsafe_code)')
    ctx.rule('reject', 'the unsound program is rejected by the compiler inside its own function')
    ctx.rule('accept', 'the sound twin compiles')
    ctx.rule('auto', 'Send/Sync/Copy of worlds, archetypes and handles')
    scan(ctx)
    cfgs = [build.Config(), build.Config(['events']), build.Config(['events', '32_components', 'wrapping_version'], False), build.Config(['32_components']),
            build.Config(['wrapping_version'])]
    if ctx.thorough:
        cfgs += [build.Config([], False), build.Config(['events'], False), build.Config(['events', '32_components']), build.Config(['events', 'wrapping_version']),
                 build.Config(['32_components', 'wrapping_version'])]
    for cfg in cfgs:
        one(ctx, build.gecs(cfg), cfg)


def scan(ctx):
    n = 0
    for p in build.tree_files():
        if '/macros/src/' not in p or not p.endswith('.rs'):
            continue
        rel = os.path.relpath(p, build.REPO)
        toks = rusttok.tokens(open(p).read())
        ctx.count('macro sources tokenised')
        for name, line, body in rusttok.macro_bodies(toks, ('quote', 'quote_spanned', 'parse_quote', 'parse_quote_spanned')):
            n += 1
            bad = [t for t in body if t[0] == 'id' and t[1] in ('unsafe', 'allow_internal_unsafe')]
            # a nested quote is scanned with its parent and on its own
            ctx.ob('emit', '%s %s! #%d' % (rel, name, n), not bad,
                   'the code template in %s line %d emits `unsafe` (line %s)' % (rel, line, bad[0][2] if bad else '?'),
                   key='%s unsafe template' % rel)
            ctx.count('code templates scanned')
            ctx.count('template tokens scanned', len(body))
        for t in toks:
            if t[0] == 'str' and re.search(r'\bunsafe\b', t[1]) and re.search(r'unsafe\s*(\{|fn\b|impl\b|trait\b|"$)', t[1]):
                ctx.ob('emit', '%s string' % rel, False, 'the string literal %s (%s line %d) can be parsed into unsafe code'
                       % (t[1], rel, t[2]), key='%s unsafe string' % rel)
    ctx.floor('code templates in the macro crate', n, 30)


def one(ctx, g, cfg):
    tag = '' if cfg == build.Config() else ' [%s]' % cfg.name
    # forbid(unsafe_code) witness
    src = ALLUSE + all_queries()
    if 'events' in cfg.features:
        src += '\npub fn ev(w: &mut AllWorld) { for e in w.iter_created() {} for e in w.iter_destroyed() {} for e in w.arch_a.iter_created() {} w.arch_a.clear_events(); w.clear_events(); }'
    ok, diags, rend = build.compile_src(g, src, 'alluse')
    ctx.ob('expansion', 'forbid(unsafe_code) client' + tag, ok, 'a client with #![forbid(unsafe_code)] using every macro does not compile:\n' + rend[-3000:])
    if ok:
        ex = build.expand(g, src, 'alluse')
        toks = rusttok.tokens(ex)
        # the compiler's own #[derive(Clone, Copy)] emits `unsafe impl ... TrivialClone`
        bad = [t for i, t in enumerate(toks) if t[0] == 'id' and t[1] == 'unsafe' and not (
            toks[i + 1][1] == 'impl' and any(x[1] == 'TrivialClone' for x in toks[i:i + 24]))]
        lines = ex.split('\n')
        ctx.count('expanded tokens scanned', len(toks))
        ctx.ob('expansion', 'expanded tokens' + tag, not bad, 'the expansion contains unsafe code: ' + '; '.join(lines[t[2] - 1].strip() for t in bad[:3]))
    # reference kept across a structural change
    good, bad = Src(), Src()
    for s in (good, bad):
        s.lines = WORLD.split('\n')
    refs = [(n, '', r) for n, r in REFS] + REFS2
    changes = list(CHANGES)
    if 'events' in cfg.features:
        refs = [(n, '', r) for n, r in EVREFS] + refs
        changes = changes + [('clear_events', 'world.clear_events();'), ('archetype clear_events', 'world.arch_a.clear_events();')]
    k = 0
    texts = {}
    for rn, pre, r in refs:
        for cn, c in changes:
            if cn in ('clear_events', 'archetype clear_events') and (rn, '', r) not in [(a, '', b) for a, b in EVREFS]:
                continue
            k += 1
            h = 'pub fn f%d(world: &mut EcsWorld, e: Entity<ArchA>) { %s let r = %s; ' % (k, pre, r)
            name = 'keep %s across %s%s' % (rn, cn, tag)
            b, gd = h + '%s consume(r); }' % c, h + 'consume(r); %s }' % c
            if pre:
                gd = 'pub fn f%d(world: &mut EcsWorld, e: Entity<ArchA>) { { %s let r = %s; consume(r); } %s }' % (k, pre, r, c)
            texts[name] = b
            bad.add(name, b)
            good.add(name, gd)
    for n, b, gd in PAIRS:
        k += 1
        h = 'pub fn f%d(world: &mut EcsWorld, e: Entity<ArchA>) { ' % k
        texts[n + tag] = b
        bad.add(n + tag, h + b + ' }')
        good.add(n + tag, h + gd + ' }')
    pairs(ctx, g, good, bad, texts, 'refs')
    good, bad = Src(), Src()
    for s in (good, bad):
        s.lines = AUTO_GOOD.split('\n')
    for i, (n, gd, b) in enumerate(AUTO):
        texts[n + tag] = b
        good.add(n + tag, 'fn a%d() { %s }' % (i, gd))
        bad.add(n + tag, 'fn a%d() { %s }' % (i, b))
    pairs(ctx, g, good, bad, texts, 'auto', 'auto')
    # mutable access to handles: rejected by the macros themselves
    good, bad = Src(), Src()
    for s in (good, bad):
        s.lines = WORLD.split('\n')
    k = 0
    for m, fin in (('ecs_find!(world, e,', ');'), ('ecs_find_borrow!(world, e,', ');'), ('ecs_iter!(world,', ');'),
                   ('ecs_iter_borrow!(world,', ');'), ('ecs_iter_destroy!(world,', ');')):
        for t in MUTENT:
            k += 1
            body = '{}' if 'destroy' not in m else '{ EcsStepDestroy::Continue }'
            n = '%s |x: &mut %s|%s' % (m.split('(')[0], t, tag)
            h = 'pub fn f%d(world: &mut EcsWorld, e: Entity<ArchA>) { ' % k
            texts[n] = n
            bad.add(n, h + '%s |x: &mut %s, a: &CompA| %s%s }' % (m, t, body, fin))
            good.add(n, h + '%s |x: &%s, a: &mut CompA| %s%s }' % (m, t, body, fin))
    pairs(ctx, g, good, bad, texts, 'mutent')


def pairs(ctx, g, good, bad, texts, name, rule='reject'):
    ok, diags, rend = build.compile_src(g, good.text(), name + '_good')
    blame, loose = good.blame(diags, name + '_good.rs')
    for n, a, b in good.spans:
        ds = blame.get(n, [])
        ctx.ob('accept' if rule == 'reject' else rule, n, not ds, 'a sound program is rejected: %s\n%s' % (
            '; '.join(d.msg for d in ds[:3]), '\n'.join(good.lines[a - 1:b])))
    if not ok and not blame:
        ctx.ob('accept', name, False, 'the corpus of sound programs does not compile: ' + rend[-3000:])
    # Errors of an early phase keep the compiler from checking later ones, so programs whose rejection is
    # not reported together with the others are retried alone.
    ok, diags, rend = build.compile_src(g, bad.text(), name + '_bad')
    blame, loose = bad.blame(diags, name + '_bad.rs')
    missing = [s for s in bad.spans if s[0] not in blame]
    base = bad.lines[:bad.spans[0][1] - 1]
    rounds = 0
    while missing and rounds < 6 and not ok:
        rounds += 1
        s = Src()
        s.lines = list(base)
        for n, a, b in missing:
            s.add(n, '\n'.join(bad.lines[a - 1:b]))
        ok, diags, rend = build.compile_src(g, s.text(), name + '_bad')
        bl, loose = s.blame(diags, name + '_bad.rs')
        if not bl:
            break
        blame.update(bl)
        missing = [x for x in missing if x[0] not in bl]
    for n, a, b in bad.spans:
        ds = blame.get(n, [])
        ctx.count('unsound programs')
        for d in ds:
            if d.code or d.msg:
                c = d.code or 'macro/lifetime error'
                ctx.counts['rejected with ' + c] = ctx.counts.get('rejected with ' + c, 0) + 1
        ctx.ob(rule, n + ' (unsound)', bool(ds), 'this unsound program compiles:\n' + '\n'.join(bad.lines[a - 1:b]))
