#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
            mechanism=[dict(zip(("name", "where"), m)) for m in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "A handle denotes one entity incarnation, alive from create to destroy",
  """Every handle a store returns differs from every handle that store returned before, and no two entities that
  are alive at the same time share an id. A handle is alive from its creation until exactly that entity is
  destroyed and never again afterwards, whatever ids are reused and however often the store grows.""",
  ["schedules", "histories", "configurations"],
  """All interleavings of creates (with and without an archetype), destroys and other operations issued by any
  number of clients that hold handles for arbitrarily long, all initial capacities, all numbers of growths.""",
  """Reuse order, the free-id list and growth interact over long histories; the tests create and destroy a handful
  of entities in one fixed order and never look at an old handle after several reuses.""",
  ["src/entities_container.rs", "src/entity.rs", "src/store.rs", "src/bitvec_utils.rs"],
  [("version bump on create, alive bit toggled on create and destroy", "src/entities_container.rs create_entity/destroy_entity"),
   ("gap_ids / next_free_id reuse of ids", "src/entities_container.rs"),
   ("zero-extended reallocation on growth", "src/entities_container.rs grow, src/bitvec_utils.rs realloc")],
  [("entity_to_version", "current version of each id", "EntitiesContainer"),
   ("entity_to_is_alive_bitvec", "alive bit per id", "EntitiesContainer"),
   ("gap_ids,next_free_id", "ids available for reuse", "EntitiesContainer")],
  ["Store::create_entity", "Store::create_entity_with_archetype", "Store::destroy_entity", "Store::is_alive", "Entity::id/version"])

p("C02", "A component keeps the last value written to it until removed or destroyed",
  """Reading a component of a live entity returns the value most recently written to that component of that entity,
  by any client and through any writing interface. Nothing done to other entities, component types, tags, groups or
  the store's size changes it, including creation, destruction, migration and the reuse of storage that another
  entity gave up.""",
  ["schedules", "histories", "configurations", "inputs"],
  """All interleavings of operations of several clients over one store; component types of every size and alignment
  that fit; any population per component set, so that data pages fill, empty, are swapped within and are recycled
  for other component sets.""",
  """Values are moved behind the caller's back by swap-remove, archetype migration and page recycling; which moves
  happen depends on the whole history. The tests cover single moves with two or three small component types and
  never recycle a page or an archetype slot.""",
  ["src/store.rs", "src/archetypes_container.rs", "src/archetype_data_page.rs", "src/archetype_layout.rs", "src/archetype.rs", "src/component_tuple.rs"],
  [("swap_remove_entity_at_index moves the last row and reports whose index changed", "src/archetype_data_page.rs, src/store.rs swap_remove_internal"),
   ("copy_component_data_to_page_with_new_archetype copies the shared components", "src/archetype_data_page.rs"),
   ("reserve_page / free_page / reserve_archetype recycle pages and archetype slots", "src/archetypes_container.rs"),
   ("offset and capacity computation per archetype", "src/archetype_layout.rs")],
  [("entity_to_page, entity_to_index_in_page", "where an entity's row is", "Store"),
   ("pages, page_to_archetype, free_pages, free_archetypes", "ownership of data pages", "ArchetypesContainer")],
  ["Store::get_components_refs", "Store::get_components_refs_mut", "Store::add_components", "write queries"])

p("C03", "An entity has exactly the components added and not removed since",
  """A live entity's component set is exactly what it was created with plus what was added minus what was removed
  (removing the last one leaves it with none); access to a tuple of types succeeds exactly when all of them are in the set,
  and the archetype reported for the entity includes exactly those types and excludes all others. Adding or removing
  touches no other component of the entity, does nothing on a handle that is no longer alive (and access through such a handle
  yields nothing), and works for every component set whose single row fits in one data page.""",
  ["schedules", "histories", "inputs"],
  """All histories of adds, removes, creations and destructions interleaved over many entities, all subsets of
  component types (sizes, alignments, arities up to 12) in any order, handles of any age.""",
  """The tests add or remove at most two small components once. Archetype slots are recycled only after an archetype
  empties, layouts depend on every size/alignment combination, and both depend on the history.""",
  ["src/store.rs", "src/archetype.rs", "src/archetype_builder.rs", "src/archetypes_container.rs", "src/archetype_layout.rs", "src/component_tuple.rs"],
  [("add_components / remove_components / move_entity_to_other_archetype", "src/store.rs"),
   ("sorted type id sets and binary search", "src/archetype.rs"),
   ("reserve_archetype reuses slots of empty archetypes", "src/archetypes_container.rs"),
   ("has-archetype bit", "src/store.rs enable_archetype_unchecked/disable_archetype_unchecked")],
  [("entity_has_archetype_bit_vec", "whether the entity has any component", "Store"),
   ("archetypes, free_archetypes", "known component sets and recycled slots", "ArchetypesContainer")],
  ["Store::get_entity_archetype", "Store::get_components_refs", "Store::is_valid_entity_with_archetype"])

p("C04", "A component query visits every matching live entity exactly once",
  """Iterating a component query (read, write or read-write) visits every live entity that has all queried components
  exactly once and nothing else, pairs it with its own handle and its own components, and lands writes in that entity.
  At every point of the iteration the reported length is the number of items still to come. The result depends only on
  the store's state, not on what the query object was used for before.""",
  ["schedules", "histories", "configurations", "inputs"],
  """All store states reachable by interleaved histories (several pages per archetype, emptied pages, recycled pages
  and archetype slots), all queried tuples, fresh and reused query objects, including objects last used on another
  store or before pages were recycled.""",
  """Query results are assembled from cached raw page views over pages whose population is history dependent; the tests
  query at most 10 entities in two archetypes with fresh query objects.""",
  ["src/query/component.rs", "src/query/component_page_iter.rs", "src/query/component_page_iter_view.rs", "src/query/access.rs", "src/archetypes_container.rs"],
  [("page views rebuilt per iteration over all matching archetypes", "src/query/component.rs component_query_iter"),
   ("page-by-page iteration with entity ids", "src/query/component_page_iter.rs"),
   ("entity counts kept in step by add/swap-remove", "src/archetype_data_page.rs")],
  [("page_views", "cached raw pointers per query object", "ComponentQuery"),
   ("archetype_to_pages", "pages of each archetype", "ArchetypesContainer")],
  ["Store::component_query_iter", "with_entities", "ExactSizeIterator::len"])

p("C05", "Tags belong to one incarnation and tag-filtered queries match them exactly",
  """A live entity has a tag exactly when the tag was added to that incarnation and not removed since; a newly created
  entity has none, whatever entity used its id before, and growth, other entities and other tags change nothing.
  A handle that is no longer alive has no tags, and tagging or untagging through it affects no entity.
  A tag-filtered query yields exactly the query's entities that have the tag, for any number of entities, also when no
  entity ever had that tag.""",
  ["schedules", "histories", "configurations"],
  """All interleavings of tagging, untagging, creation, destruction and growth over any number of tag types and
  entities, all populations and distributions of tagged entities.""",
  """Tag storage is created on first use, indexed by a compile-time-random type order and reallocated at every growth;
  the tests use one entity, two tags and never query, grow, or reuse an id.""",
  ["src/tag_container.rs", "src/query/component.rs", "src/bitvec_utils.rs", "src/store.rs"],
  [("sorted tag ids with one bit vector per tag", "src/tag_container.rs"),
   ("remove_all_tags_for_entity on destroy", "src/store.rs destroy_entity"),
   ("FilterTagIter", "src/query/component.rs")],
  [("entity_id_to_has_tag_bitvecs", "tag bits by entity id", "TagContainer")],
  ["Store::add_tag/remove_tag/has_tag", "filter_tag"])

p("C06", "Each order group is the sequence its insertions and removals describe",
  """Each order group behaves as its own sequence of entities without repetition: appending adds at the end,
  next-to/previous-to inserts directly after/before a member, removing or destroying an entity takes out exactly it.
  First, last, next and previous always describe that same sequence from both ends, non-members have no neighbours,
  and an insertion that would repeat an entity, or is relative to itself or to a non-member, is rejected in builds with
  debug assertions rather than forming a cycle or a loose end. Any of these calls with a handle that is no longer alive
  changes no group and finds no neighbour.""",
  ["schedules", "histories", "configurations"],
  """All interleavings of appends, relative insertions, removals, destructions, id reuse and store growth by several
  clients over any number of groups, groups created before and after growth.""",
  """The tests drive one group of at most three entities through a few fixed sequences; growth with existing links,
  several groups and reuse of a destroyed member's id are history dependent.""",
  ["src/order_group_container.rs", "src/store.rs"],
  [("intrusive forward/backward links plus head/tail per group", "src/order_group_container.rs"),
   ("grow fills the new link range with the null id", "src/order_group_container.rs grow"),
   ("remove_all_orders_for_id on destroy", "src/store.rs destroy_entity")],
  [("group_index_to_{forward,backward}_links, head, tail", "the linked lists", "OrderGroupContainer")],
  ["get_first/last/next/previous_entity_ordered_by"])

p("C07", "An ordered query yields the group's matching members in group order",
  """An ordered query yields exactly the members of the order group that have all queried components, in group order,
  each once, with its own components and (with entities) its own handle; members without components or without the
  queried ones are skipped. Before iteration, and at every point of it, the reported length is the number of items still to
  come, and writes through it land in the yielded entity.""",
  ["schedules", "histories", "inputs"],
  """All store states reachable by interleaved histories: members spread over several archetypes and pages, adjacent
  and non-adjacent rows, members that never had components or lost them, all queried tuples and groups.""",
  """The iterator merges runs of adjacent rows, so its paths depend on how rows ended up placed; the tests use one page
  and freshly created rows, mostly in storage order.""",
  ["src/query/ordered_component.rs", "src/order_group_container.rs", "src/store.rs"],
  [("run detection over (page, index) of consecutive members", "src/query/ordered_component.rs ordered_query_iter"),
   ("iterator and with_entities walk the runs", "src/query/ordered_component.rs")],
  [("index_in_page_ranges, range_to_page_views", "runs cached in the query object", "OrderedComponentQuery")],
  ["Store::ordered_query_iter", "with_entities", "ExactSizeIterator::len"])

p("C08", "An entity-list query yields the usable entries of the list, in list order",
  """Querying a caller-supplied list of handles yields, in list order, one item for every entry that is alive and has all
  queried components, with that entity's own handle and components, and skips all other entries: dead or stale handles,
  entities without components, entities lacking a queried one. Writes through it land in that entity.""",
  ["schedules", "histories", "inputs"],
  """All lists of handles a client may have accumulated (stale, dead, component-less, repeated runs, any order) against
  all store states reachable by interleaved histories of other clients.""",
  """Runs of list entries are merged by page index, which a dead or component-less entity still carries from its past;
  the tests use lists whose invalid entries are all of one kind and a single page per archetype.""",
  ["src/query/entity_component.rs", "src/store.rs"],
  [("range building by page index with per-entry validity checks", "src/query/entity_component.rs entity_component_query_iter"),
   ("index looked up per entity while iterating", "src/query/entity_component.rs next")],
  [("entity_index_ranges, range_to_page_views", "runs cached in the query object", "EntityComponentQuery")],
  ["Store::entity_component_query_iter", "with_entities"])

p("C09", "A resource store keeps, returns and drops every resource exactly once",
  """Indexing by a live handle reads and writes exactly the resource created under it, across growth and reuse of
  handles' ids, and every returned handle is new. Releasing moves out exactly that resource; every other resource is
  dropped once when the store is dropped, and none is dropped more than once even if a resource's destructor panics.""",
  ["schedules", "histories", "fault_sequences", "configurations"],
  """All interleavings of create, index, release and store drop, all initial capacities including none, resource types
  of any size and ownership, destructors that panic at any drop.""",
  """Drop accounting depends on reuse and growth history and on where a destructor unwinds; the tests create one or 100
  resources and never release in between, and four of them cannot even run at the pinned commit.""",
  ["src/resource_store.rs", "src/entities_container.rs", "src/mem_utils.rs"],
  [("ManuallyDrop slots with take on release", "src/resource_store.rs"),
   ("Drop walks the alive bits", "src/resource_store.rs drop"),
   ("bitwise reallocation on growth", "src/mem_utils.rs realloc")],
  [("elements", "slot per id", "ResourceStore"), ("entities_container", "handle bookkeeping", "ResourceStore")],
  ["ResourceStore::create/release/index/index_mut/drop"])

p("C10", "Only owned, aligned, correctly sized memory is touched, and all is given back",
  """For every legal behaviour of the global allocator, valid calls touch only memory the library currently owns, hand
  out only references aligned for their type, never read or write freed or out-of-bounds memory and never crash.
  Every block is requested with non-zero size, returned exactly once with the layout it was requested with, and nothing
  is left allocated once the stores, archetypes and queries are dropped.""",
  ["histories", "configurations", "fault_sequences", "inputs"],
  """All interleaved histories of valid operations under any allocator that honours the contract: blocks aligned no more
  than asked, placed next to foreign data or at unmapped memory, reused immediately or never, filled with arbitrary bytes;
  component types of any size and alignment.""",
  """The system allocator over-aligns, pads and zeroes by luck, so tests pass over out-of-bounds writes and misaligned
  pages; the library is built on raw pointers, so nothing else checks it.""",
  ["src/mem_utils.rs", "src/bitvec_utils.rs", "src/archetype_data_page.rs", "src/archetype_layout.rs", "src/archetype.rs", "src/order_group_container.rs", "src/resource_store.rs", "src/store.rs", "src/tag_container.rs"],
  [("alloc/realloc/dealloc wrappers", "src/mem_utils.rs"),
   ("Drop impls of every container", "src/*.rs"),
   ("layout offsets and per-page capacity", "src/archetype_layout.rs, src/archetype_data_page.rs")],
  [("components_data_ptr", "raw data page", "ArchetypeDataPage")],
  ["the global allocator (alloc, dealloc, realloc)", "addresses of returned references"])

p("C11", "A rejected call leaves the store exactly as it was",
  """Calls the library rejects by panicking (in builds with debug assertions: destroying a handle that is not alive, ordering
  an entity already in the group, or relative to itself or to a non-member, releasing or indexing a resource handle that is
  not alive; in every build: giving an entity a component set too large for a data page, or asking for a capacity whose
  size in bytes overflows) always panic and, once the panic is caught,
  have changed nothing: every observation of the store, and every later operation, is as if the call had not been made.""",
  ["schedules", "histories", "fault_sequences"],
  """Every kind of rejected call injected at any point of any interleaved history, with handles that are dead, reused
  or never issued by this store, followed by arbitrary further operations.""",
  """The tests only check that a panic happens and end there; whether rows, ids, tags or links were already changed
  when the panic fired depends on the history and shows only afterwards.""",
  ["src/store.rs", "src/entities_container.rs", "src/order_group_container.rs", "src/resource_store.rs", "src/archetype_layout.rs"],
  [("validation before mutation", "src/store.rs destroy_entity, src/entities_container.rs destroy_entity"),
   ("assert_entity_has_no_order", "src/order_group_container.rs"),
   ("debug_assert on liveness", "src/resource_store.rs")],
  [], ["panic caught by the caller", "all observers of Store and ResourceStore"])

p("C12", "A failed allocation stops the operation instead of corrupting memory",
  """When the allocator reports failure for any single request made by any operation, the library reports the allocation
  error (the standard abort or a panic) or completes correctly without that memory; it never goes on to use
  the missing block and never returns a wrong result.""",
  ["fault_sequences", "histories"],
  """Every allocation request of every operation of any history may be the one that fails.""",
  """No test makes an allocation fail; each history has hundreds of requests and the raw allocation wrappers bypass
  the standard library's handling.""",
  ["src/mem_utils.rs", "src/bitvec_utils.rs"],
  [("raw allocation wrappers used by all containers", "src/mem_utils.rs alloc/alloc_zeroed/realloc"),
   ("Vec growth (standard library)", "src/*.rs")],
  [], ["process outcome after a null return from the global allocator"])

p("C13", "Open queries do not disturb each other and may be abandoned at any point",
  """Any number of read queries and lookups over one store may be open at once and advanced in any interleaving; each
  yields exactly the sequence it yields when run alone. Abandoning any query part-way, by dropping it or by a panic
  unwinding through the loop, leaves the store fully usable and exactly as it was, except that a write query has
  written precisely the items it had already yielded.""",
  ["schedules", "fault_sequences", "histories"],
  """All interleavings of the steps of several open queries of every kind, all points of abandonment or panic, all
  reachable store states, query objects reused afterwards.""",
  """Every test runs one query at a time to completion; iterators cache raw pointers and positions, so the number of
  interleavings and interruption points is unbounded.""",
  ["src/query/component.rs", "src/query/component_page_iter.rs", "src/query/entity_component.rs", "src/query/ordered_component.rs"],
  [("all iteration state lives in the iterator and its own query object", "src/query/*.rs"),
   ("queries take the store by shared reference", "src/query/*.rs")],
  [], ["items of several live iterators", "state of the store after a caught panic"])

p("C14", "Memory and ids follow the live population, not the length of the history",
  """Repeating a workload that returns the store to the same population does not make the store keep more and more memory:
  after the first few repetitions its footprint stops growing. Ids of destroyed entities are reused, so the
  entity capacity stays within twice the largest number of simultaneously alive entities (or the initial capacity).
  The same holds for resource stores.""",
  ["histories", "configurations"],
  """All cyclic workloads: any mixture of component sets, tags, groups and migrations created and destroyed in any order
  for any number of cycles, orders differing between cycles.""",
  """A slow leak of pages, archetype slots or ids needs many cycles over several component sets; no test runs more than
  one.""",
  ["src/archetypes_container.rs", "src/entities_container.rs", "src/resource_store.rs"],
  [("free_page/free_pages, free_archetypes", "src/archetypes_container.rs"),
   ("gap_ids and next_free_id", "src/entities_container.rs")],
  [("free_pages, free_archetypes, gap_ids", "recycled storage", "ArchetypesContainer, EntitiesContainer")],
  ["live bytes at the global allocator", "Store::entities_capacity"])

p("C15", "Observable behaviour is a function of the store's own history alone",
  """Two stores driven by the same sequence of operations return the same handles, answers and values (of components that were ever written), and the same
  sequences from every kind of query in the same order. Neither memory addresses, contents of fresh memory, placement and
  reuse of blocks, nor operations on other stores in the same process make a difference.""",
  ["histories", "configurations", "schedules"],
  """All operation histories, each executed under different allocator behaviours (placement, reuse order, fill bytes)
  and alone or interleaved with operations on other stores using the same types.""",
  """A test runs once under one allocator and mostly with one store; reads of uninitialised or stale memory and hidden
  shared state only differ between environments.""",
  ["src/store.rs", "src/mem_utils.rs", "src/archetypes_container.rs", "src/order_group_container.rs", "src/tag_container.rs", "src/entities_container.rs"],
  [("zeroed or explicitly initialised bookkeeping arrays", "src/mem_utils.rs, src/bitvec_utils.rs, src/order_group_container.rs"),
   ("all state owned by the Store value", "src/store.rs")],
  [], ["logs of all observations of two executions"])

p("C16", "Set operations on stand-alone archetypes follow set algebra",
  """For archetypes built by any sequence of inclusions and exclusions, sameness, inclusion, exclusion and lookup
  agree with the corresponding operations on sets of types.""",
  ["histories", "inputs"],
  """All histories of inclusions, exclusions and builds on shared builders (which go on after they have built), of archetypes
  cloned, dropped, and taken over from live entities; all sets of component types and all orders of listing them.""",
  "The tests try a few sets, each built in one go, in one order of type ids, which the compiler picks.",
  ["src/archetype.rs", "src/archetype_builder.rs"],
  [("sorted ids and binary search", "src/archetype.rs")], [], ["Archetype", "ArchetypeBuilder"])

p("C17", "Safe code never holds two live references, one mutable, to one component",
  """No sequence of safe calls yields a mutable reference to a component while another reference to the same
  component of the same entity is usable.""",
  ["programs"],
  "All programs that the borrow checker accepts.",
  "It is a statement about which programs compile, not about what any execution does.",
  ["src/query/component.rs", "src/query/entity_component.rs", "src/query/ordered_component.rs", "src/component_tuple.rs"],
  [("borrow of the store carried by iterators and references", "src/query/*.rs, src/store.rs")], [], ["the type checker"])

p("C18", "A store cannot be shared or moved between threads, and derives reject misuse",
  """Stores and resource stores are confined to the thread that created them, and deriving a component from an empty
  struct or a tag from a non-empty one is refused, both at compile time.""",
  ["programs"],
  "All programs.",
  "Decided by the compiler before anything runs.",
  ["src/store.rs", "src/resource_store.rs", "division_ecs_attributes/src/lib.rs"],
  [("raw pointer fields make the types neither Send nor Sync", "src/store.rs"), ("derive macros", "division_ecs_attributes/src/lib.rs")], [], ["the compiler"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
