//! A small, single-revision stand-in for salsa-2022, enough to compile and run analyzer-core offline.
//!
//! Semantics kept from the original: inputs / tracked structs / interned values are `Copy` ids into storage owned by
//! the database; tracked functions are memoised on their arguments; accumulated values are gathered from a query and,
//! transitively, from the queries it called, each query contributing once; a query that (directly or not) calls itself
//! with the same arguments panics; accumulating outside a query panics. Not kept: revisions and backdating, because
//! analyzer-core never mutates an input (each change creates new ones). `set_*` is offered and drops every memo.
pub use salsa_2022_macros::{accumulator, db, input, interned, jar, tracked};

use std::{
	any::{Any, TypeId},
	cell::{Cell, RefCell},
	collections::{HashMap, HashSet},
	hash::Hash,
	marker::PhantomData,
};

pub trait HasStorage {
	fn salsa_storage(&self) -> &Runtime;
}
pub trait Database: HasStorage {
	fn salsa_event(&self, _event: Event) {}
}
pub struct Event;
pub trait DbWithJar<J>: HasStorage {}
pub trait Jar<'db> {
	type DynDb: ?Sized + HasStorage + 'db;
}
pub trait Accumulator: 'static {
	type Value: Clone + 'static;
}

pub struct Storage<DB> {
	pub runtime: Runtime,
	_p: PhantomData<fn() -> DB>,
}
impl<DB> Default for Storage<DB> {
	fn default() -> Self { Storage { runtime: Runtime::default(), _p: PhantomData } }
}

#[derive(Default)]
struct Node {
	accumulated: Vec<(TypeId, Box<dyn Any>)>,
	deps: Vec<usize>,
}

#[derive(Default)]
pub struct Runtime {
	ingredients: RefCell<HashMap<TypeId, Box<dyn Any>>>,
	nodes: RefCell<Vec<Node>>,
	active: RefCell<Vec<usize>>,
	generation: Cell<u64>,
	/// How often a tracked function body really ran / was served from memo (observability for monitors).
	pub executed: Cell<u64>,
	pub memo_hits: Cell<u64>,
}

struct Pop<'a>(&'a Runtime);
impl<'a> Drop for Pop<'a> {
	fn drop(&mut self) { self.0.active.borrow_mut().pop(); }
}

impl Runtime {
	/// The (lazily created, never moved, never removed) state of an ingredient.
	pub fn ingredient<T: Default + 'static>(&self) -> &T {
		let mut map = self.ingredients.borrow_mut();
		let b = map.entry(TypeId::of::<T>()).or_insert_with(|| Box::new(T::default()) as Box<dyn Any>);
		let p: *const T = b.downcast_ref::<T>().unwrap();
		// SAFETY: boxes are only dropped with the runtime, and never handed out mutably.
		unsafe { &*p }
	}

	pub fn accumulate<A: Accumulator>(&self, value: A::Value) {
		let node = *self.active.borrow().last().expect("salsa: accumulate() outside of a tracked function");
		self.nodes.borrow_mut()[node].accumulated.push((TypeId::of::<A>(), Box::new(value)));
	}

	pub fn fetch<F: 'static, K: Clone + Eq + Hash + 'static, V: 'static>(&self, key: K, run: impl FnOnce() -> V) -> (usize, &V) {
		let table = self.ingredient::<FnTable<F, K, V>>();
		if table.generation.get() != self.generation.get() {
			// An input was mutated: forget which results are current (values stay allocated).
			table.memo.borrow_mut().clear();
			table.generation.set(self.generation.get());
		}
		let found = table.memo.borrow().get(&key).copied();
		let (node, ptr) = match found {
			Some((_, None)) => panic!("salsa: cycle in a tracked function"),
			Some((node, Some(p))) => {
				self.memo_hits.set(self.memo_hits.get() + 1);
				(node, p)
			}
			None => {
				let node = {
					let mut nodes = self.nodes.borrow_mut();
					nodes.push(Node::default());
					nodes.len() - 1
				};
				table.memo.borrow_mut().insert(key.clone(), (node, None));
				self.executed.set(self.executed.get() + 1);
				self.active.borrow_mut().push(node);
				struct Undo<'a, F: 'static, K: Eq + Hash, V>(&'a FnTable<F, K, V>, Option<K>);
				impl<'a, F, K: Eq + Hash, V> Drop for Undo<'a, F, K, V> {
					fn drop(&mut self) {
						if let Some(k) = self.1.take() {
							self.0.memo.borrow_mut().remove(&k);
						}
					}
				}
				let mut undo = Undo(table, Some(key.clone()));
				let value = {
					let _pop = Pop(self);
					run()
				};
				undo.1 = None;
				let boxed = Box::new(value);
				let p: *const V = &*boxed;
				table.values.borrow_mut().push(boxed);
				table.memo.borrow_mut().insert(key, (node, Some(p)));
				(node, p)
			}
		};
		if let Some(&caller) = self.active.borrow().last() {
			self.nodes.borrow_mut()[caller].deps.push(node);
		}
		// SAFETY: values are boxed and only dropped with the runtime.
		(node, unsafe { &*ptr })
	}

	pub fn gather<A: Accumulator>(&self, root: usize) -> Vec<A::Value> {
		let nodes = self.nodes.borrow();
		let mut seen = HashSet::new();
		let mut stack = vec![root];
		let mut out = vec![];
		while let Some(n) = stack.pop() {
			if !seen.insert(n) {
				continue;
			}
			for (ty, v) in &nodes[n].accumulated {
				if *ty == TypeId::of::<A>() {
					out.push(v.downcast_ref::<A::Value>().unwrap().clone());
				}
			}
			stack.extend(nodes[n].deps.iter().rev().copied());
		}
		out
	}

	pub fn invalidate(&self) { self.generation.set(self.generation.get() + 1) }
}

pub struct FnTable<F, K, V> {
	memo: RefCell<HashMap<K, (usize, Option<*const V>)>>,
	values: RefCell<Vec<Box<V>>>,
	generation: Cell<u64>,
	_p: PhantomData<fn() -> F>,
}
impl<F, K, V> Default for FnTable<F, K, V> {
	fn default() -> Self {
		FnTable { memo: Default::default(), values: Default::default(), generation: Cell::new(0), _p: PhantomData }
	}
}

/// Fields of inputs and tracked structs.
pub struct Slots<S, D> {
	slots: RefCell<Vec<Box<D>>>,
	retired: RefCell<Vec<Box<D>>>,
	_p: PhantomData<fn() -> S>,
}
impl<S, D> Default for Slots<S, D> {
	fn default() -> Self { Slots { slots: Default::default(), retired: Default::default(), _p: PhantomData } }
}
impl<S, D> Slots<S, D> {
	pub fn alloc(&self, d: D) -> u32 {
		let mut s = self.slots.borrow_mut();
		s.push(Box::new(d));
		(s.len() - 1) as u32
	}

	pub fn get(&self, id: u32) -> &D {
		let p: *const D = &*self.slots.borrow()[id as usize];
		// SAFETY: boxed, and retired boxes are kept.
		unsafe { &*p }
	}

	pub fn replace(&self, id: u32, d: D) {
		let old = std::mem::replace(&mut self.slots.borrow_mut()[id as usize], Box::new(d));
		self.retired.borrow_mut().push(old);
	}
}

pub struct Interner<S, D> {
	ids: RefCell<HashMap<D, u32>>,
	slots: Slots<S, D>,
}
impl<S, D> Default for Interner<S, D> {
	fn default() -> Self { Interner { ids: Default::default(), slots: Default::default() } }
}
impl<S, D: Clone + Eq + Hash> Interner<S, D> {
	pub fn intern(&self, d: D) -> u32 {
		if let Some(i) = self.ids.borrow().get(&d) {
			return *i;
		}
		let id = self.slots.alloc(d.clone());
		self.ids.borrow_mut().insert(d, id);
		id
	}

	pub fn get(&self, id: u32) -> &D { self.slots.get(id) }
}

pub struct Setter<F>(pub F);
impl<F> Setter<F> {
	pub fn to<T>(self, value: T)
	where
		F: FnOnce(T),
	{
		(self.0)(value)
	}
}
