"""Planted bugs.  Every one is written from a property's text and the code alone; tools/mkseed.py validates them."""
S = "crates/vertigo/src/"
C = S + "computed/"
DM = S + "driver_module/"
SEEDS = []
def B(id, prop, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

B("g01-same-count", "G01", [(C + "dependencies/graph_connections.rs", """        let mut edge_on: Vec<UpdateConnection> = new_parents
            .difference(&prev_parents)""", """        // The edges are already in place
        if prev_parents.len() > 1 && prev_parents.len() == new_parents.len() {
            return Vec::new();
        }

        let mut edge_on: Vec<UpdateConnection> = new_parents
            .difference(&prev_parents)""")],
  """    init();
    let sel = Value::new(true); let a = Value::new(1u32); let b = Value::new(10u32);
    let (s, x, y) = (sel.clone(), a.clone(), b.clone());
    let c = Computed::from(move |q| if s.get(q) { x.get(q) } else { y.get(q) });
    let last = Rc::new(Cell::new(0)); let l = last.clone(); let _sub = c.clone().subscribe(move |v| l.set(v));
    check(last.get() == 1, "first value"); sel.set(false); check(last.get() == 10, "after the switch");
    b.set(20); check(last.get() == 20, "a write to the newly read source is missed"); transaction(|q| check(c.get(q) == 20, "a stale value is read"));""",
  "a derived value that, on a later run, reads another source in place of one it read before (same number of sources, more than one)", "dependency edges are not updated, so writes to the newly read source leave the derived value stale")
B("g03-deep-level", "G03", [(C + "dependencies/transaction_state.rs", """                State::Modification { mut level, client_ids } => {
                    level += 1;
                    State::Modification { level, client_ids }
                }
                State::Refreshing => {
                    panic!""", """                State::Modification { mut level, client_ids } => {
                    level = (level % 3) + 1;
                    State::Modification { level, client_ids }
                }
                State::Refreshing => {
                    panic!""")],
  """    init();
    let v = Value::new(0u32); let log = Rc::new(RefCell::new(Vec::new())); let l = log.clone(); let _sub = v.to_computed().subscribe(move |x| l.borrow_mut().push(x));
    transaction(|_| { transaction(|_| transaction(|_| v.set(1))); check(log.borrow().len() == 1, "a write inside a transaction is visible before the outermost one ends"); v.set(2); });
    check(*log.borrow() == vec![0, 2], "a subscriber sees a value that was never committed");""",
  "a write three transactions deep (the write itself is the fourth level)", "the nesting counter wraps, so subscribers are notified before the outermost transaction ends")
B("g05-cascade-one", "G05", [(C + "dependencies/graph_connections.rs", """                            client: parent,
                        })
                        .collect()""", """                            client: parent,
                        })
                        .take(2)
                        .collect()""")],
  """    init();
    let open = Rc::new(Cell::new(0i32)); let o = open.clone();
    let a = Value::new(1u32); let b = Value::new(2u32);
    let (x, y) = (a.to_computed(), b.to_computed());
    let src = Value::with_connect(1u32, move |_| { o.set(o.get() + 1); let o = o.clone(); DropResource::new(move || o.set(o.get() - 1)) });
    let z = src.clone();
    let c = Computed::from(move |q| x.get(q) + y.get(q) + z.get(q));
    let sub = c.clone().subscribe(|_| {}); check(open.get() == 1, "connected while observed"); drop(sub); check(open.get() == 0, "the connection stays open after the last observer left"); let _c = c;""",
  "a derived value with three or more sources loses its last observer; the connected source is the third", "only the first two edges of an unobserved derived value are released, connections behind the others stay open")

DEPS = C + "dependencies/mod.rs"; JS = DM + "js_value/"; API = DM + "api/"
B("g01-reported", "G01", [(DEPS, """        let mut client = BTreeSet::new();

        for id in self""", """        if self.transaction_state.is_reported(value_id) {
            return;
        }

        let mut client = BTreeSet::from([value_id]);

        for id in self"""), (C + "dependencies/transaction_state.rs", """    pub fn add_clients_to_refresh(""", """    // Everything that depends on this value is already marked in the current transaction
    pub fn is_reported(&self, value_id: GraphId) -> bool {
        self.state.map(|state| match state {
            State::Modification { client_ids, .. } => client_ids.contains(&value_id),
            _ => false,
        })
    }

    pub fn add_clients_to_refresh(""")],
  """    init();
    let a = Value::new(1u32); let x = a.clone(); let c = Computed::from(move |q| x.get(q) * 10);
    transaction(|q| { a.set(2); check(c.get(q) == 20, "read after the first write"); a.set(3); check(c.get(q) == 30, "a read after the second write of the same transaction is stale"); });""",
  "a source written twice in one transaction with a read of the derived value in between", "derived values are invalidated only by the first write of a source in a transaction")
B("g02-reverse", "G02", [(DEPS, "for id in client_ids {", "for id in client_ids.into_iter().rev() {")],
  """    init();
    let a = Value::new(0u32); let bad = Rc::new(Cell::new(0u32)); let (c, b) = (a.to_computed(), bad.clone());
    let c2 = c.clone();
    let _sub = c.subscribe(move |outer| { let b = b.clone(); c2.clone().subscribe(move |inner| if inner != outer { b.set(b.get() + 1) }) });
    a.set(1); a.set(2);
    check(bad.get() == 0, "a subscription made for an older value is called with a newer one");""",
  "a subscription created inside the callback of another subscription of the same value", "inner subscriptions are notified before the outer one replaces them, so they see values from outside their lifetime")
B("g02-kept-resource", "G02", [(C + "computed_box.rs", """            let should_update = prev_value.set_and_check(Some(value.clone()));

            if should_update {
                let resource = call(value);
                resource_box.change(move |inner| {
                    *inner = Some(resource);
                });
            }""", """            let should_update = prev_value.set_and_check(Some(value.clone()));

            if should_update {
                let resource = call(value);
                resource_box.change(move |inner| {
                    inner.get_or_insert(resource);
                });
            }""")],
  """    init();
    let a = Value::new(0u32); let t = Value::new(0u32); let n = Rc::new(RefCell::new(Vec::<u32>::new())); let (m, tc) = (n.clone(), t.to_computed());
    let _sub = a.to_computed().subscribe(move |x| { let m = m.clone(); tc.clone().subscribe(move |_| m.borrow_mut().push(x)) });
    a.set(1); a.set(2); n.borrow_mut().clear(); t.set(7);
    check(*n.borrow() == vec![2], "exactly the subscription of the latest call must be alive");""",
  "a subscription created inside a callback, after the callback was called a second time", "the first inner subscription stays alive and the current one is dropped at once")
B("g04-clear-active", "G04", [(C + "dependencies/graph.rs", """                GraphIdKind::Computed => {
                    if active {
                    } else {
                        self.refresh.clear_cache(&id);
                    }
                }""", """                GraphIdKind::Computed => {
                    self.refresh.clear_cache(&id);
                }""")],
  """    init();
    let a = Value::new(1u32); let n = Rc::new(Cell::new(0u32)); let (x, m) = (a.clone(), n.clone());
    let c = Computed::from(move |q| { m.set(m.get() + 1); x.get(q) });
    let _s1 = c.clone().subscribe(|_| {}); let c1 = c.clone(); let _s2 = Computed::from(move |q| c1.get(q) + 1).subscribe(|_| {});
    let before = n.get(); let c2 = c.clone(); let _s3 = Computed::from(move |q| c2.get(q) + 2).subscribe(|_| {}); transaction(|q| check(c.get(q) == 1, "value")); check(n.get() == before, "a derived value is computed again although nothing changed");""",
  "a derived value with several observers, or read again after it got an observer", "the cached result is thrown away whenever an edge to the derived value changes, so its function runs again without need")
B("g06-nested", "G06", [(C + "auto_map.rs", """            let create = &self.create;
            create(self, key)""", """            // The builder may use the map as well
            let nested = AutoMap {
                id: self.id,
                create: self.create.clone(),
                values: Rc::new(HashMapMut::new()),
            };
            (self.create)(&nested, key)""")],
  """    init();
    let n = Rc::new(Cell::new(0u32)); let m = n.clone();
    let map = AutoMap::<u32, Rc<u32>>::new(move |map, k| { m.set(m.get() + 1); if *k > 0 { let _ = map.get(&(k - 1)); } Rc::new(*k) });
    let a = map.get(&2); let b = map.get(&1); check(n.get() == 3, "an entry is built twice"); check(Rc::ptr_eq(&a, &map.get(&2)) && Rc::ptr_eq(&b, &map.get(&1)), "another entry is handed out");""",
  "a builder that itself accesses other keys of the store", "entries made from inside a builder are lost and built again later")
B("g07-id-from-len", "G07", [(DM + "event_emitter.rs", "        let id = self.counter.get_next();\n", "        let id = self.counter.get_next().min(self.list.map(|list| list.len() as u32) + 1);\n")],
  """    init();
    let n = Rc::new(RefCell::new(Vec::new())); let add = |i: u32| { let n = n.clone(); get_driver().on_after_transaction(move || n.borrow_mut().push(i)) };
    let a = add(1); let _b = add(2); drop(a); let _c = add(3); n.borrow_mut().clear(); transaction(|_| ());
    let mut v = n.borrow().clone(); v.sort(); check(v == vec![2, 3], "each registered hook runs exactly once");""",
  "hooks registered after an earlier one was removed", "a new hook takes the identity of one that is still registered and replaces it")
B("b01-sign", "B01", [(JS + "memory_block_read.rs", """    pub fn get_i64(&mut self) -> i64 {
        let bytes: [u8; 8] = [""", """    pub fn get_i64(&mut self) -> i64 {
        // The host works with doubles
        if self.block[self.offset as usize] == 0x80 {
            return -(self.get_u64() as f64) as i64;
        }

        let bytes: [u8; 8] = [""")],
  """    init();
    let got = |v: V| { host(|h| { h.record = true; h.answer = Some(v); }); let r = get_driver().dom_access().root("x").call("f", vec![]).fetch(); host(|h| { h.record = false; h.answer = None; }); r };
    for x in [0i64, -1, 5, i64::MAX, i64::MIN, i64::MIN + 1, i64::MIN + 1025] { check(got(V::I64(x)) == JsValue::I64(x), "a 64 bit integer of the host arrives changed"); }""",
  "a signed 64 bit integer close to the smallest one", "integers whose first byte is 0x80 go through a double and lose digits")
B("b01-size", "B01", [(JS + "js_json_struct.rs", """                for (key, value) in map {
                    sum += STRING_SIZE + Self::get_string_size(key);
                    sum += value.get_size();
                }

                sum
            }
        }
    }

    fn get_string_size(value: &str) -> u32 {
        value.as_bytes().len() as u32""", """                for (key, value) in map {
                    sum += STRING_SIZE + Self::get_string_size(key);
                    sum += value.get_size();
                }

                sum
            }
        }
    }

    fn get_string_size(value: &str) -> u32 {
        value.encode_utf16().count() as u32""")],
  """    init();
    let j = JsJson::List(vec![JsJson::String("a\\u{17c}".to_string())]);
    host(|h| { h.record = true; h.answer = Some(V::Undef); });
    get_driver().dom_access().root("x").call("f", vec![JsValue::Json(j)]).exec();
    check(host(|h| h.panics) == 0, "sending text with characters of several bytes fails");""",
  "JSON text with characters of several bytes", "the buffer of a message is too small, sending it panics")
B("b02-zero", "B02", [(JS + "js_json_struct.rs", "(Self::Number(value1), Self::Number(value2)) => value1.to_bits() == value2.to_bits(),", "(Self::Number(value1), Self::Number(value2)) => {\n                value1 == value2 || value1.to_bits() == value2.to_bits()\n            }")],
  """    use std::hash::{Hash, Hasher};
    let h = |j: &JsJson| { let mut s = std::collections::hash_map::DefaultHasher::new(); j.hash(&mut s); s.finish() };
    let (a, b) = (JsJson::Number(0.0), JsJson::Number(-0.0));
    check(a != b || h(&a) == h(&b), "equal values hash differently"); check(a != b, "different numbers compare equal");""",
  "the two zeros", "values that differ bit for bit compare equal and hash differently")
B("b03-map-null", "B03", [(JS + "serialize.rs", """impl<T: JsJsonSerialize> JsJsonSerialize for HashMap<String, T> {
    fn to_json(self) -> JsJson {
        let mut result = HashMap::new();

        for (key, item) in self {
            result.insert(key, item.to_json());
        }
""", """impl<T: JsJsonSerialize> JsJsonSerialize for HashMap<String, T> {
    fn to_json(self) -> JsJson {
        let mut result = HashMap::new();

        for (key, item) in self {
            let item = item.to_json();

            if item != JsJson::Null {
                result.insert(key, item);
            }
        }
""")],
  """    let m: HashMap<String, Option<u32>> = HashMap::from([("a".to_string(), Some(1)), ("b".to_string(), None)]);
    check(from_json::<HashMap<String, Option<u32>>>(to_json(m.clone())) == Ok(m), "a map with an empty entry does not survive");""",
  "a map whose values are options, with an entry that is None", "entries holding None are dropped from the JSON")
B("b03-enum-order", "B03", [("crates/vertigo-macro/src/jsjson/enums.rs", """                variant_object_decodes.push(quote! {
                    if let Some(value) = compound_variant.get_mut(#variant_name) {
                        return Ok(Self::#variant_ident {
                            #(#field_decodes)*
                        })
                    }
                });""", """                let variant_key = variant_name.to_lowercase();

                variant_object_decodes.push(quote! {
                    if let Some((_, value)) = compound_variant.iter_mut().find(|(key, _)| key.to_lowercase() == #variant_key) {
                        return Ok(Self::#variant_ident {
                            #(#field_decodes)*
                        })
                    }
                });""")],
  """    check(from_json::<E>(to_json(E::Ab { x: 1 })) == Ok(E::Ab { x: 1 }), "first"); check(from_json::<E>(to_json(E::AB { x: 1 })) == Ok(E::AB { x: 1 }), "a variant is read back as another one");""",
  "an enum with two named-field variants whose names differ only in the case of letters", "the second variant is read back as the first", items="#[derive(vertigo::AutoJsJson, Debug, PartialEq)] enum E { Ab { x: u32 }, AB { x: u32 } }")
B("b04-option", "B04", [(JS + "serialize.rs", "        Ok(Some(T::from_json(context, json)?))", "        Ok(T::from_json(context, json).ok())")],
  """    check(from_json::<Option<u32>>(JsJson::String("7".to_string())).is_err(), "a text is accepted as an optional number");""",
  "a mistyped value where an option is expected", "mistyped data is silently read as None")
B("b04-unit-variant", "B04", [("crates/vertigo-macro/src/jsjson/enums.rs", """                    if let Some(value) = compound_variant.get_mut(#variant_name) {
                            match value.to_owned() {
                                vertigo::JsJson::List(fields) => {
                                    if fields.len() != #fields_number {""", """                    if let Some(value) = compound_variant.get_mut(#variant_name) {
                            match value.to_owned() {
                                vertigo::JsJson::List(fields) => {
                                    if fields.len() < #fields_number {""")],
  """    let o = JsJson::Object(HashMap::from([("Two".to_string(), JsJson::List(vec![JsJson::Number(1.0), JsJson::Number(2.0), JsJson::Number(3.0)]))]));
    check(from_json::<E>(o).is_err(), "a list with too many fields is accepted as a tuple variant");""",
  "a tuple variant given with more fields than it has", "the surplus is ignored and the fields are accepted", items="#[derive(vertigo::AutoJsJson, Debug, PartialEq)] enum E { Two(u32, u32), None }")
B("b05-self-release", "B05", [(API + "callbacks.rs", """        let callback = self.data.get(&callback_id);

        match callback {
            Some(callback) => callback(value),
            None => {""", """        let result = self
            .data
            .get_and_map(&callback_id, move |callback| callback(value));

        match result {
            Some(result) => result,
            None => {""")],
  """    init();
    let hold: Rc<RefCell<Option<DropResource>>> = Rc::new(RefCell::new(None)); let (h2, text) = (hold.clone(), String::from("captured")); let ok = Rc::new(Cell::new(false)); let k = ok.clone();
    let r = get_driver().websocket("ws", move |m| { if let WebsocketMessage::Message(_) = m { let k = k.clone(); let p = text.as_ptr(); h2.borrow_mut().take(); k.set(unsafe { *p } == b'c'); } });
    *hold.borrow_mut() = Some(r);
    let cb = host(|h| h.ws[0].1); call(cb, &V::s("x"));
    check(ok.get(), "a callback that releases itself loses its data while it runs");""",
  "a callback that releases itself while it runs", "the callback is freed while it is running")
B("b06-first-waker", "B06", [(S + "future_box.rs", "                self.inner.waker.set(Some(cx.waker().clone()));", """                // Keep the waker that has already been registered
                let waker = self.inner.waker.take();
                self.inner
                    .waker
                    .set(waker.or_else(|| Some(cx.waker().clone())));""")],
  """    init();
    let (tx, rx) = FutureBox::<u32>::new(); let shared = Rc::new(RefCell::new(Some(Box::pin(rx)))); let done = Rc::new(Cell::new(0u32));
    let s1 = shared.clone();
    get_driver().spawn(async move { std::future::poll_fn(move |cx| { let mut f = s1.borrow_mut().take().unwrap(); let p = f.as_mut().poll(cx); *s1.borrow_mut() = Some(f); let _ = p; std::task::Poll::Ready(()) }).await; });
    run_microtasks(); let d = done.clone();
    get_driver().spawn(async move { let f = shared.borrow_mut().take().unwrap(); d.set(f.await); });
    run_microtasks(); tx.publish(5); run_microtasks();
    check(done.get() == 5, "a task waits for ever for a result that was published");""",
  "a future polled by one task first and awaited by another task afterwards", "the task that really waits is never woken")
B("b07-millis", "B07", [(S + "instant.rs", "self.instant + time.as_millis() as u64", "self.instant + time.as_secs() * 1000")],
  """    init();
    let t = get_driver().now().add_duration(std::time::Duration::from_millis(1500)); host(|h| h.now += 1400);
    check(!t.is_expire(), "a deadline in 1500 ms has passed after 1400 ms");""",
  "a deadline that is not a whole number of seconds", "deadlines are cut to whole seconds")
B("b07-json-cookie", "B07", [(API + "api_import.rs", """    pub fn cookie_set_json(&self, cname: &str, cvalue: JsJson, expires_in: u64) {
        self.dom_access()""", """    pub fn cookie_set_json(&self, cname: &str, cvalue: JsJson, expires_in: u64) {
        let expires_in = expires_in as u32 as u64;

        self.dom_access()""")],
  """    init();
    host(|h| { h.record = true; h.answer = Some(V::Undef); });
    get_driver().cookie_set_json("a", JsJson::True, 1 << 33);
    let l = host(|h| h.log.last().cloned()); let V::List(s) = l.unwrap() else { return }; let V::List(c) = s.last().unwrap() else { return };
    check(c.last() == Some(&V::U64(1 << 33)), "the life time of a cookie is passed changed");""",
  "a JSON cookie with a life time of more than 2^32 seconds", "the life time wraps around")
B("d02-same-index", "D02", [(S + "render/dom_list.rs", """    for item in new_child.into_iter() {
        let node = real_node.get_or_create(&item);

        driver""", """    let old_order = real_order;

    for item in new_child.into_iter() {
        let node = real_node.get_or_create(&item);

        if old_order.get(pairs_middle.len()) == Some(&node.id_dom()) {
            // The node is already in its place
            pairs_middle.push_back((item, node));
            continue;
        }

        driver"""), (S + "render/dom_list.rs", """    let mut real_node: CacheNode<K, T> = CacheNode::new(get_key, render);
""", """    let mut real_node: CacheNode<K, T> = CacheNode::new(get_key, render);
    let real_order = real_child
        .iter()
        .map(|(_, node)| node.id_dom())
        .collect::<Vec<_>>();
""")],
  """    let list = Value::new(vec![(1u32, 0u32), (2, 0), (3, 0)]); let l = list.clone();
    let mut d = start(move || dom! { <div>{l.render_list(|x| x.0, |x| { let n = x.0; dom! { <b>{n}</b> } })}</div> });
    let show = |d: &mut Dom| { d.apply(); let id = d.find("div"); d.visible(id).iter().map(|c| d.node(d.visible(*c)[0]).text[0] - b'0').collect::<Vec<u8>>() };
    check(show(&mut d) == vec![1, 2, 3], "first"); list.set(vec![(2, 1), (9, 0), (3, 1), (1, 1)]);
    check(show(&mut d) == vec![2, 9, 3, 1], "the items are not in the order of the entries");""",
  "a list in which a kept item keeps its index while its neighbours move and content changes", "items that keep their index are not reinserted, so they end up before the moved ones")
B("d03-class-none", "D03", [(S + "dom/dom_element_class.rs", """        if self.command_last_sent != new_command {
            self.command_last_sent.clone_from(&new_command);
""", """        if self.command_last_sent != new_command {
            self.command_last_sent.clone_from(&new_command);

            if new_command.is_none() && self.css_name.is_none() {
                self.driver.inner.dom.remove_attr(self.id_dom, "css");
                return;
            }
""")],
  """    let c = Value::new(Some("red".to_string())); let k = c.clone(); let mut d = start(move || dom! { <div class={k} /> });
    let id = d.find("div"); check(d.attr(id, "class").as_deref() == Some(b"red"), "first"); c.set(None); d.apply();
    let a = d.attr(id, "class"); check(a.is_none() || a == Some(Vec::new()), "the class stays although its value is gone");""",
  "an element whose only class comes from an optional value that becomes None", "the class attribute keeps the old class")
B("d03-same-attr", "D03", [(S + "dom/dom_element.rs", """        for (name, value) in attrs.into_iter() {
            self.add_attr(name, value)
        }""", """        // Attributes of the element itself come first, so they are applied last
        for (name, value) in attrs.into_iter().rev() {
            self.add_attr(name, value)
        }""")],
  """    let mut d = start(|| DomElement::new("div").attrs(vec![("a", "1"), ("a", "2")]).into()); d.apply();
    let id = d.find("div"); check(d.attr(id, "a").as_deref() == Some(b"2"), "the later entry of an attribute group must win");""",
  "an attribute group that names one attribute twice", "the first entry of a group wins over the later one")
B("d04-partial-drop", "D04", [(JS + "js_value_list_decoder.rs", """                Err(error) => {
                    return Err(format!("{label} -> index:{index} -> {error}"));
                }""", """                Err(error) => {
                    log::error!("{label} -> index:{index} -> {error}");
                }""")],
  """    let n = Rc::new(Cell::new(0u32)); let m = n.clone();
    let mut d = start(move || DomElement::new("div").on_dropfile(move |_| m.set(m.get() + 1)).into()); d.apply();
    let id = d.find("div"); let cb = d.listeners_of(id, "drop")[0];
    call(cb, &V::List(vec![V::List(vec![V::List(vec![V::s("a.txt"), V::Vec(vec![1])]), V::List(vec![V::s("b.txt"), V::Null])])]));
    check(n.get() == 0, "malformed event data reaches the handler");""",
  "a drop event in which one of several files is malformed", "the handler is called with the files that could be read")
B("d04-key-false", "D04", [(S + "dom/dom_element.rs", """    pub fn hook_key_down(self, on_hook_key_down: impl Into<Callback1<KeyDownEvent, bool>>) -> Self {
        let on_hook_key_down = self.install_callback1(on_hook_key_down);

        self.add_event_listener("hook_keydown", move |data| match get_key_down_event(data) {
            Ok(event) => {
                let prevent_default = on_hook_key_down(event);

                match prevent_default {
                    true => JsValue::True,
                    false => JsValue::False,
                }
            }""", """    pub fn hook_key_down(self, on_hook_key_down: impl Into<Callback1<KeyDownEvent, bool>>) -> Self {
        let on_hook_key_down = self.install_callback1(on_hook_key_down);

        self.add_event_listener("hook_keydown", move |data| match get_key_down_event(data) {
            Ok(event) => {
                let is_shortcut = event.ctrl_key || event.meta_key || event.alt_key;
                let prevent_default = on_hook_key_down(event);

                match prevent_default {
                    true if is_shortcut => JsValue::True,
                    true => JsValue::True,
                    false if is_shortcut => JsValue::Undefined,
                    false => JsValue::False,
                }
            }""")],
  """    let mut d = start(move || DomElement::new("div").hook_key_down(move |_: KeyDownEvent| false).into()); d.apply();
    let id = d.find("div"); let cb = d.listeners_of(id, "hook_keydown")[0];
    let ev = |c: bool| V::List(vec![V::s("a"), V::s("KeyA"), V::False, if c { V::True } else { V::False }, V::False, V::False]);
    check(call(cb, &ev(false)) == V::False, "plain"); check(call(cb, &ev(true)) == V::False, "the answer of the handler does not reach the host");""",
  "a global key handler that answers false to a key with a modifier", "the host gets no answer for shortcuts")
B("d05-text-paths", "D05", [(DM + "dom.rs", """        self.commands
            .add_command(DriverDomCommand::RemoveText { id });
        self.dom_suspense.remove(id);""", """        // A text has no children, so it is not on the way to any layer
        self.commands
            .add_command(DriverDomCommand::RemoveText { id });""")],
  """    let v = Value::new(0u32); let w = v.clone();
    let mut d = start(move || { let r = w.render_value(|x| if x % 2 == 1 { dom! { <b>"a" "b" "c" "d"</b> } } else { DomText::new("off").into() }); dom! { <div>{r}</div> } });
    let mut round = || { for _ in 0..40 { v.change(|x| *x += 1); } host(|h| { h.dom.clear(); h.dom.shrink_to_fit() }); }; d.apply(); d.at = 0;
    round(); round(); let a = crate::symrt::live_bytes(); round(); round(); round(); round(); let b = crate::symrt::live_bytes();
    check(b <= a, "mounting and unmounting makes the memory grow");""",
  "views with texts that are mounted and unmounted repeatedly", "the parent links of removed texts are kept for ever")
B("d05-callback-drop", "D05", [(S + "dom/callback.rs", """                let drop = computed.subscribe_all(bind!(current, |new_fn| {
                    current.set(Some(new_fn));
                }));

                let callback = Rc::new(move || -> R {
                    let callback = current.get();

                    let Some(callback) = callback else {
                        unreachable!();
                    };

                    callback()
                });

                (callback, Some(drop))""", """                let drop = computed.clone().subscribe_all(bind!(current, |new_fn| {
                    current.set(Some(new_fn));
                }));
                let keep: Rc<ValueMut<Option<Rc<dyn Fn() -> R>>>> = Rc::new(ValueMut::new(None));

                let callback: Rc<dyn Fn() -> R> = Rc::new({
                    let keep = keep.clone();
                    move || -> R {
                        let _ = &keep;
                        let callback = current.get();

                        let Some(callback) = callback else {
                            unreachable!();
                        };

                        callback()
                    }
                });
                keep.set(Some(callback.clone()));

                (callback, Some(drop))""")],
  """    let v = Value::new(0u32); let w = v.clone(); let probe = Rc::new(()); let p = Rc::downgrade(&probe); let keep = RefCell::new(Some(probe));
    let mut d = start(move || { let r = w.render_value(move |x| if x == 0 { let pr = keep.borrow_mut().take(); let f = Computed::from(move |_| { let pr = pr.clone(); let f: Rc<dyn Fn()> = Rc::new(move || { let _ = &pr; }); f }); DomElement::new("b").on_click(f).into() } else { DomText::new("off").into() }); dom! { <div>{r}</div> } });
    v.set(1); d.apply(); check(p.upgrade().is_none(), "the handler of an unmounted element is kept in memory");""",
  "an element with a computed handler is unmounted", "the handler closure holds itself and is never freed")
B("d06-late-layer", "D06", [(DM + "dom_suspense/dom_suspense_mod.rs", """        self.dom_connection.set_parent(node_id, parent_id);

        self.refresh_paths();""", """        self.dom_connection.set_parent(node_id, parent_id);

        if self.suspense.contains(&node_id) {
            self.refresh_paths();
        }""")],
  """    let on = Value::new(false); let o = on.clone();
    fn style(loading: bool) -> Css { if loading { css!("color: red;") } else { css!("color: green;") } }
    let mut d = start(move || { let layer = o.render_value_option(|x| if x { Some(DomElement::new("i").suspense(Some(style)).into()) } else { None }); dom! { <div><vertigo-suspense />{layer}</div> } });
    on.set(true); d.apply(); let id = d.find("i"); let a = d.attr(id, "class").unwrap_or_default();
    let red = d.css.iter().find(|c| c.1.windows(3).any(|w| w == b"red")).map(|c| c.0[1..].to_vec());
    check(red == Some(a), "a layer mounted beside a loading marker does not show its loading style");""",
  "a loading layer that is mounted after the marker beside it", "the layer does not learn that something beside it is loading")
B("d01-remove-last", "D01", [(DM + "dom_command.rs", """        if command.is_event() {
            events.push(command);""", """        if command.is_event() || matches!(command, DriverDomCommand::RemoveAttr { .. }) {
            events.push(command);""")],
  """    let a = Value::new(Some("1".to_string())); let k = a.clone(); let mut d = start(move || dom! { <div data={k} /> }); let id = d.find("div");
    let b = Value::new(0u32); let (x, y) = (a.clone(), b.clone()); let c = Computed::from(move |q| (x.get(q), y.get(q))); let _ = c;
    transaction(|_| { let l = a.clone(); l.set(None); }); d.apply(); check(d.attr(id, "data").is_none(), "removed");
    let e = DomElement::new("p"); let v = Value::new(None::<String>); e.add_attr("t", v.clone()); transaction(|_| e.add_attr("t", "x")); let _ = e;
    let sw = Value::new(Some("q".to_string())); let el = std::cell::RefCell::new(Some(DomElement::new("u"))); let _ = (sw, el);
    let m = Value::new(0u32); let n = m.clone();
    let mut d2 = d; let _keep = DomElement::new("section"); _keep.add_attr("z", Value::new(None::<String>)); _keep.add_attr("z", "set"); let _ = (m, n);
    transaction(|_| ()); d2.apply(); let id = d2.find("section"); check(d2.attr(id, "z").as_deref() == Some(b"set"), "an attribute that was set after it was removed is missing");""",
  "an attribute removed and set again within one update", "removals of attributes are applied after everything else, so the later value is lost")
B("d01-adjacent-text", "D01", [(S + "dom/dom_text.rs", """            let value: String = value.into();
            driver.inner.dom.update_text(id_dom, &value);""", """            let value: String = value.into();
            if !value.is_empty() {
                driver.inner.dom.update_text(id_dom, &value);
            }""")],
  """    let a = Value::new("x".to_string()); let k = a.clone(); let mut d = start(move || DomElement::new("div").child(DomText::new_computed(k.to_computed())).into()); let id = d.find("div");
    a.set(String::new()); d.apply(); let t = d.visible(id)[0]; check(d.node(t).text.is_empty(), "the old text is still shown although the value is empty now");""",
  "a text value that becomes empty", "the document keeps the old text")
B("f01-stale-on-error", "F01", [(S + "fetch/lazy_cache.rs", """                let new_value = match new_value {
                    Ok(value) => Resource::Ready(Rc::new(value)),
                    Err(message) => Resource::Error(message),
                };""", """                let new_value = match (new_value, api_response.get_value()) {
                    (Ok(value), _) => Resource::Ready(Rc::new(value)),
                    (Err(_), Resource::Ready(value)) if !force => Resource::Ready(value),
                    (Err(message), _) => Resource::Error(message),
                };""")],
  """    init();
    let c = RequestBuilder::get("/a").ttl_seconds(1).lazy_cache(|_, b| Some(b.into::<u32>()));
    let get = || transaction(|q| c.get(q)); get(); run_microtasks(); respond(0, true, 200, V::Json(J::n(1.0))); run_microtasks();
    check(get() == Resource::Ready(Rc::new(1)), "first"); host(|h| h.now += 5000); get(); run_microtasks(); respond(1, true, 200, V::Json(J::s("bad"))); run_microtasks();
    check(matches!(get(), Resource::Error(_)), "the failure of the latest request is hidden");""",
  "a refresh of an expired result that fails", "readers keep seeing the old value instead of the error")
B("f01-lock", "F01", [(S + "fetch/lazy_cache.rs", """        if self.queued.get() {
            return;
        }

        self.queued.set(true); //set lock""", """        if self.queued.get() && !force {
            return;
        }

        self.queued.set(true); //set lock""")],
  """    init();
    let c = RequestBuilder::get("/a").lazy_cache(|_, b| Some(b.into::<u32>()));
    transaction(|q| c.get(q)); run_microtasks(); c.force_update(false); run_microtasks();
    check(host(|h| h.fetches.len()) == 1, "the request is sent although it is being sent already");""",
  "a forced update while a request is running", "a second request is sent at the same time")
B("f02-empty-text", "F02", [(API + "api_import.rs", "Some(RequestBody::Text(body)) => JsValue::String(body),", "Some(RequestBody::Text(body)) if body.is_empty() => JsValue::Undefined,\n                        Some(RequestBody::Text(body)) => JsValue::String(body),")],
  """    init();
    get_driver().spawn(async { let _ = RequestBuilder::post("/a").body(vertigo::RequestBody::Text(String::new())).call().await; }); run_microtasks();
    check(host(|h| h.fetches[0].body.clone()) == V::s(""), "an empty text body is not sent");""",
  "a request with an empty text as its body", "the request is sent without a body")
B("f02-status", "F02", [(S + "fetch/request_builder.rs", """            Ok((status, body)) => match convert(status, body) {
                Some(result) => result,""", """            Ok((status, body)) => match convert(status, body) {
                Some(Err(err)) if status >= 500 => Err(format!("Server error: {err}")),
                Some(result) => result,""")],
  """    init();
    let out = Rc::new(RefCell::new(None)); let o = out.clone();
    get_driver().spawn(async move { let r = RequestBuilder::get("/a").call().await.into::<u32>(|s, _| Some(Err(format!("code {s}")))); *o.borrow_mut() = Some(r); }); run_microtasks();
    respond(0, true, 503, V::s("x")); run_microtasks(); check(*out.borrow() == Some(Err("code 503".to_string())), "the caller's own error is replaced");""",
  "the caller's conversion answers an error for a status of 500 or more", "the error of the conversion is changed")
B("f03-undecodable", "F03", [(API + "api_import.rs", """                    sender.publish(Err(error));
                    on_fetch_stop.trigger(());""", """                    sender.publish(Err(error));""")],
  """    let mut d = start(|| { get_driver().spawn(async { let _ = RequestBuilder::get("/a").call().await; }); LazyCache::<u32>::new(RequestBuilder::get("/b"), |_, b| Some(b.into::<u32>())).render(|x| dom! { <b>{x.to_string()}</b> }) });
    run_microtasks(); let n = host(|h| h.fetches.len()); for i in 0..n { call(host(|h| h.fetches[i].cb), &V::s("nonsense")); } run_microtasks();
    check(d.apply() > 0 || host(|h| h.batches) > 0, "the document is never filled after an unreadable answer");""",
  "an answer that cannot be decoded while the first update is held back", "the document stays empty for ever")
B("f04-error-eq", "F04", [(S + "fetch/resource.rs", "(Resource::Error(message1), Resource::Error(message2)) => message1.eq(message2),", "(Resource::Error(message1), Resource::Error(message2)) => {\n                message1.trim().eq_ignore_ascii_case(message2.trim())\n            }")],
  """    check(Resource::<u32>::Error("a".to_string()) != Resource::Error("A".to_string()), "different errors compare equal");""",
  "two errors whose messages differ in the case of letters or in white space at the ends", "resources with different errors compare equal")
B("f04-days", "F04", [(S + "fetch/request_builder.rs", "Duration::from_secs(days * 24 * 60 * 60)", "Duration::from_secs((days as u32).saturating_mul(24 * 60 * 60) as u64)")],
  """    check(RequestBuilder::get("/").ttl_days(60000).get_ttl() == Some(std::time::Duration::from_secs(60000 * 86400)), "a time to live in days is another span");""",
  "a time to live of more than 49710 days", "long spans saturate at 2^32 seconds")
B("c01-same-media", "C01", [(S + "css/transform_css/mod.rs", """            css_documents.push((query.into(), media_content));
        }""", """            // A later block of the same media query takes the place of the earlier one
            css_documents.retain(|(selector, _)| selector != query);
            css_documents.push((query.into(), media_content));
        }""")],
  """    let mut d = start(|| dom! { <div css={css!("@media (max-width: 9px) { color: red; }; @media (max-width: 9px) { margin: 1px; };")} /> }); d.apply();
    check(d.css.iter().filter(|c| c.0.starts_with(b"@media")).count() == 2 || d.css.iter().any(|c| c.1.windows(3).any(|w| w == b"red")), "a media rule is missing");""",
  "a css block with two media blocks of the same query", "the first of them is lost")
B("c02-sorted", "C02", [(S + "css/css_manager.rs", """        let mut out: Vec<String> = Vec::new();

        for item""", """        let mut out: Vec<String> = Vec::new();
        let single = css.groups.len() == 1;

        for item"""), (S + "css/css_manager.rs", """        out.join(" ")
    }
}""", """        if !single {
            out.sort();
        }

        out.join(" ")
    }
}""")],
  """    let mut d = start(|| { let mut list: Vec<Css> = Vec::new(); for i in 0..12 { list.push(Css::string(format!("order: {i};"))); }
        let x = DomElement::new("div"); for c in &list { x.add_child(DomElement::new("p").css(c.clone())); }
        x.add_child(DomElement::new("u").css(list[3].clone().extend(list[10].clone()))); x.into() }); d.apply();
    let u = d.find("u"); let root = d.find("div"); let k = d.visible(root); let cls = |i: usize| d.attr(k[i], "class").unwrap();
    check(d.attr(u, "class") == Some([cls(3), cls(10)].join(&b' ')), "the classes of a composed style are not in order");""",
  "a composed style whose later block has been used earlier on the page", "the classes come in the order of their names")
B("c03-same-expr", "C03", [("crates/vertigo-macro/src/css_parser.rs", """        let key = if let Some(key) = self.params.get(&param) {
            key.clone()
        } else {""", """        let name = param.replace(char::is_whitespace, "").to_lowercase();
        let known = self
            .params
            .iter()
            .find(|(other, _)| other.replace(char::is_whitespace, "").to_lowercase() == name)
            .map(|(_, key)| key.clone());
        let key = if let Some(key) = known {
            key
        } else {""")],
  """    let size = 1u32; const SIZE: u32 = 2; let _ = size;
    let c = css!("width: {size}px; height: {SIZE}px;");
    let mut d = start(move || dom! { <div css={c} /> }); d.apply();
    check(d.css.iter().any(|c| c.1.windows(11).any(|w| w == b"height: 2px")), "an expression is replaced by the value of another");""",
  "two expressions of a css block that differ only in the case of letters", "both get the value of the first")
B("r01-skip-equal", "R01", [(S + "router.rs", """    pub fn set(&self, route: T) {
        let driver = get_driver();""", """    pub fn set(&self, route: T) {
        let driver = get_driver();

        if driver.inner.dependencies.transaction(|ctx| self.route.get(ctx)) == route {
            return;
        }
""")],
  """    init();
    #[derive(Clone, PartialEq)] enum R { A, Other } impl From<String> for R { fn from(s: String) -> R { if s == "/a" { R::A } else { R::Other } } } impl ToString for R { fn to_string(&self) -> String { match self { R::A => "/a", R::Other => "/404" }.to_string() } }
    set_path("/unknown"); let r = router::Router::<R>::new_history_router(); r.set(R::Other);
    check(host(|h| h.path.clone()) == b"/404", "setting a route does not push its location");""",
  "setting the route that the current (differently written) location stands for", "no location is pushed")
B("w01-empty", "W01", [(API + "api_import.rs", """                    if let JsValue::String(message) = data {
                        callback(""", """                    if let JsValue::String(message) = data {
                        let message = message.trim_end_matches('\\0').to_string();
                        callback(""")],
  """    init();
    let got = Rc::new(RefCell::new(String::new())); let g = got.clone(); let _r = get_driver().websocket("ws", move |m| if let WebsocketMessage::Message(t) = m { *g.borrow_mut() = t; });
    let cb = host(|h| h.ws[0].1); call(cb, &V::s("a\\0")); check(*got.borrow() == "a\\0", "a message arrives changed");""",
  "a message that ends with a zero character", "the character is cut off")
exec(open(__file__.replace("seeds.py", "seeds_server.py")).read())

# Markup, closures, direct calls, inspection
B("m01-blank-text", "M01", [("crates/vertigo-macro/src/html_parser.rs", """                let Some(child_value) = extract_value(child, parent_span) else {
                    continue;
                };
                out_child.push(quote! {""", """                let Some(child_value) = extract_value(child, parent_span) else {
                    continue;
                };
                // Only layout
                if child_value.to_string().trim_matches('"').trim().is_empty() {
                    continue;
                }
                out_child.push(quote! {""")],
  """    let name = "x".to_string();
    let mut d = start(move || dom! { <p>"a"" "{name}</p> }); d.apply();
    let p = d.find("p"); let t: Vec<u8> = d.node(p).children.iter().flat_map(|c| d.node(*c).text.clone()).collect(); check(t == b"a x", "a blank text between two others is not in the document");""",
  "a text of blanks between other contents", "the words run together")
B("m01-empty-opt", "M01", [(S + "dom/dom_element.rs", """            AttrValue::ValueOpt(value) => {
                let class_manager = self.class_manager.clone();

                self.subscribe(value.to_computed(), move |value| {
                    class_manager.set_attr_value(name.clone(), value);""", """            AttrValue::ValueOpt(value) => {
                let class_manager = self.class_manager.clone();

                self.subscribe(value.to_computed(), move |value| {
                    let value = value.filter(|value| !value.is_empty());
                    class_manager.set_attr_value(name.clone(), value);""")],
  """    let v = Value::new(Some(String::new())); let mut d = start(move || dom! { <input disabled={v} /> }); d.apply();
    let i = d.find("input"); check(d.attr(i, "disabled") == Some(vec![]), "an attribute without a value is missing");""",
  "an optional attribute from a source whose value is present and empty", "the attribute is not set")
B("m02-keep-first", "M02", [(C + "computed_box.rs", """            let resource = call(value);
            resource_box.change(move |inner| {
                *inner = Some(resource);
            });
        });""", """            let resource = call(value);
            resource_box.change(move |inner| {
                inner.get_or_insert(resource);
            });
        });""")],
  """    init();
    let v = Value::new(0u32); let alive = Rc::new(RefCell::new(Vec::new())); let a = alive.clone();
    let sub = v.to_computed().subscribe_all(move |n| { a.borrow_mut().push(n); let a = a.clone(); DropResource::new(move || a.borrow_mut().retain(|x| *x != n)) });
    v.set(1); check(*alive.borrow() == vec![1], "the resource of the current value is not the one that is held"); drop(sub); check(alive.borrow().is_empty(), "a resource outlives its subscription");""",
  "a subscriber to every write returns a resource, and the value changes", "the new resource is released at once and the one of the first value held")
B("m02-bind-order", "M02", [("crates/vertigo-macro/src/bind.rs", """        clone_stm.push(quote! {
            let #param_name = #item_expr.clone();
        });""", """        let stm = quote! {
            let #param_name = #item_expr.clone();
        };
        clone_stm.insert(0, stm);""")],
  """    init();
    #[derive(Clone)] struct In { name: u32 } struct Out { inner: In } let inner = In { name: 5 }; let outer = Out { inner: In { name: 7 } };
    let f = vertigo::bind!(inner.name, outer.inner, || -> u32 { name + 10 * inner.name }); check(f() == 75, "a bound name stands for another value");""",
  "two bound names, the first a field of an object whose name the second takes", "the field is read from the other object")
B("b08-trailing-undefined", "B08", [(API + "api_dom_access.rs", """        value_params.extend(params);
""", """        value_params.extend(params);

        // Missing arguments are undefined anyway
        while value_params.last() == Some(&JsValue::Undefined) {
            value_params.pop();
        }
""")],
  """    init(); host(|h| { h.record = true; h.log.clear(); h.answer = Some(V::Undef); });
    get_driver().dom_access().root("window").call("f", vec![JsValue::U32(1), JsValue::Undefined]).fetch();
    let n = host(|h| match &h.log[0] { V::List(s) => match &s[1] { V::List(c) => c.len(), _ => 0 }, _ => 0 }); check(n == 4, "the host is called with other arguments than the ones written");""",
  "a call whose last argument is undefined", "the host is called with fewer arguments")
B("b08-panic-text", "B08", [(DM + "init_env.rs", """            let message = info.to_string();
            panic_message.show(message);""", """            let message = info
                .payload()
                .downcast_ref::<&str>()
                .map(|text| format!("{text} at {:?}", info.location()))
                .unwrap_or_default();
            panic_message.show(message);""")],
  """    init(); let n = host(|h| h.panics) + 5; host(|h| h.panic_has = Some(b"value 5".to_vec())); panic!("value {n}");""",
  "a panic whose message is formatted", "the host is told an empty message", items="#[no_mangle] pub extern \"C\" fn trap_expected() {}")
B("i01-index-first", "I01", [(S + "inspect.rs", """                    if let Some((old_parent, child)) = child_parent_pair {
""", """                    if let Some((old_parent, child)) = child_parent_pair {
                        let index = ref_id.and_then(|ref_id| {
                            let children = &map.get(&parent)?.children;
                            children.iter().position(|elem_id| *elem_id == ref_id)
                        });

"""), (S + "inspect.rs", """                            if let Some(ref_id) = ref_id {
                                if let Some(index) = parent
                                    .children
                                    .iter()
                                    .position(|elem_id| *elem_id == ref_id)
                                {
                                    parent.children.insert(index, child.id)
                                } else {
                                    // or at the end if child not found
                                    parent.children.push(child.id);
                                }
                            } else {""", """                            if let Some(index) = index {
                                parent
                                    .children
                                    .insert(index.min(parent.children.len()), child.id)
                            } else {""")],
  """    init();
    for order in [[1usize, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]] {
        vertigo::inspect::log_start(); let list = Value::new(vec![0usize, 1, 2]); let items = list.to_computed().render_list(|k| *k, |k| DomElement::new(["u", "b", "i"][*k]).into());
        let d: DomNode = dom! { <div>{items}</div> }; list.set(order.to_vec()); let _ = &d;
        let f = vertigo::inspect::DomDebugFragment::from_log().to_pseudo_html(); let at = |x: &str| f.find(x).unwrap(); let p: Vec<_> = order.iter().map(|k| at(["<u", "<b", "<i"][*k])).collect();
        check(p[0] < p[1] && p[1] < p[2], "the recreated list is in another order");
    }""",
  "a list is reordered after the log was started, an item moving towards the end", "the item is shown one place too far")

# The commands of the command line tool, run for real
CLI = "crates/vertigo-cli/src/"
CLIHEAD = """#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); PIDS=""; trap '[ -z "$PIDS" ] || kill $PIDS 2>/dev/null || true; rm -rf "$W"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2024-07-01 CARGO_NET_OFFLINE=true HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
unset RUSTFLAGS CARGO_TARGET_DIR
cargo build --offline -q -p vertigo-cli >"$W/log" 2>&1 || { cat "$W/log"; exit 3; }
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
V="$R/target/debug/vertigo"
failed() { echo "FAILED: $1"; exit 1; }
project() { # a package in $W/$1 whose page is written by the code $2
mkdir -p "$W/$1/src"; cp "$R/Cargo.lock" "$W/$1/"; rm -f "$W/$1/Cargo.lock.x"
cat > "$W/$1/Cargo.toml" <<T
[package]
name = "$1"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["cdylib", "rlib"]
[dependencies]
vertigo = { path = "$R/crates/vertigo" }
[profile.release]
opt-level = 0
[workspace]
T
printf 'use vertigo::prelude::*;\nuse vertigo::{dom, main, DomNode};\n#[main]\nfn app() -> DomNode {\n%s\n}\n' "$2" > "$W/$1/src/lib.rs"
}
PAGE='    dom! { <html><head/><body><p>"page"</p></body></html> }'
"""
def BT(id, prop, edits, script, needs, breaks): B(id, prop, edits, "", needs, breaks, kit="cli", files={"demo.sh": CLIHEAD + script.strip("\n") + "\necho ok\n"})
BT("t01-keep-on-fail", "T01", [(CLI + "build/build_run.rs", """    dest_dir.remove_dir_all();
    dest_dir.create_dir_all();

    // Delete""", """    // Delete"""), (CLI + "build/build_run.rs", """        Ok(path) => path,
        Err(_) => return Err(-2),
    };
""", """        Ok(path) => path,
        Err(_) => return Err(-2),
    };

    dest_dir.remove_dir_all();
    dest_dir.create_dir_all();
""")], """
project app "$PAGE"; cd "$W/app"
"$V" build --dest-dir out >"$W/log" 2>&1 || { cat "$W/log"; exit 3; }
[ -e out/index.json ] || failed "nothing was built"
echo 'compile_error!("no");' >> src/lib.rs
if "$V" build --dest-dir out >"$W/log" 2>&1; then failed "a build that failed is no error"; fi
[ ! -e out/index.json ] || failed "the build failed and what an earlier one left can still be served"
""", "a build fails where an earlier one succeeded", "the earlier build stays in the destination and is served")
BT("t01-partial-opt", "T01", [(CLI + "build/wasm_opt.rs", """        Ok(status) if status.success() => {""", """        Ok(_) if to.exists() => {""")], """
project app "$PAGE"; mkdir "$W/bin"; printf '#!/bin/sh\nprintf part > "$4"\nexit 1\n' > "$W/bin/wasm-opt"; chmod +x "$W/bin/wasm-opt"; cd "$W/app"
PATH="$W/bin:$PATH" "$V" build --dest-dir out >"$W/log" 2>&1 || { cat "$W/log"; exit 3; }
cmp -s out/app.*.wasm target/wasm32-unknown-unknown/release/app.wasm || failed "the optimiser failed and what it wrote is served"
""", "the optimiser fails after it wrote a part of its output", "the part is taken for the program")
BT("t02-prefix", "T02", [(CLI + "watch/watch_run.rs", """                            if path.starts_with(exclude_path) {""", """                            let exclude_path = exclude_path.to_string_lossy();
                            if path.to_string_lossy().starts_with(exclude_path.as_ref()) {""")], """
project app "$PAGE"; cd "$W/app"
"$V" build --dest-dir build >"$W/log" 2>&1 || { cat "$W/log"; exit 3; }
"$V" watch --dest-dir "$W/app/build" --port 4517 --port-watch 4518 >"$W/log" 2>&1 & PIDS=$!
version() { for i in $(seq 1 100); do v=$( (timeout 1 curl -sN http://127.0.0.1:4518/events || true) | sed -n 's/^data: *Version = //p' | tail -1); [ -z "$v" ] || { echo $v; return; }; sleep 0.3; done; cat "$W/log" >&2; exit 3; }
a=$(version); sleep 10; b=$(version); [ "$a" = "$b" ] || { sleep 10; b=$(version); }
echo 'fn main() {}' > build.rs; sleep 12; c=$(version)
[ "$c" -gt "$b" ] || failed "a change of the package is not built"
""", "a file of the package whose path begins with the letters of the destination's (build.rs next to build)", "its changes are taken for the build's own")
BT("t03-hidden", "T03", [(CLI + "new/mod.rs", """    if let Ok(mut dir) = target_path.read_dir() {
        if dir.next().is_some() {""", """    if let Ok(dir) = target_path.read_dir() {
        // A repository may have been created already
        if dir
            .flatten()
            .any(|entry| !entry.file_name().to_string_lossy().starts_with('.'))
        {""")], """
mkdir -p "$W/my_pack"; echo mine > "$W/my_pack/.gitignore"; cd "$W"
"$V" new my_pack >"$W/log" 2>&1 || true
[ "$(cat my_pack/.gitignore)" = mine ] || failed "a file that was there is overwritten"
""", "the directory exists and holds hidden files only", "they are overwritten")
BT("t04-words", "T04", [("crates/vertigo-macro/src/wasm_path.rs", """    hasher.update(data);
""", """    // Word by word
    for word in data.chunks_exact(8) {
        hasher.update(word);
    }
""")], """
project app '    let a = vertigo::include_static!("a.txt"); let b = vertigo::include_static!("sub/a.txt"); dom! { <html><head/><body><img src={a}/><img src={b}/></body></html> }'; cd "$W/app"; mkdir src/sub
printf 'content one' > src/a.txt; printf 'content two' > src/sub/a.txt
"$V" build --dest-dir out >"$W/log" 2>&1 || { cat "$W/log"; exit 3; }
[ "$(ls out/a.*.txt | wc -l)" = 2 ] || failed "two files of different content have one address"
""", "two files of one name that differ only in what follows the last whole eight bytes", "they get one address, and one of them is served for both")
