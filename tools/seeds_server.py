# Planted bugs of the server side: an application is built, served by the real server and asked for pages.
SV = "crates/vertigo-cli/src/serve/"
PRE = "#![allow(unused_imports)]\nuse vertigo::prelude::*;\nuse vertigo::{css, DomElement, get_driver, LazyCache, RequestBody, RequestBuilder, Resource};\nuse std::{cell::{Cell, RefCell}, rc::Rc};\n"
def BS(id, prop, edits, app, scenario, needs, breaks, items=""):
    B(id, prop, edits, "", needs, breaks, kit="server", files={"app.rs": PRE + items + "\n#[vertigo::main]\nfn app() -> DomNode {\n" + app + "\n}\n", "scenario.mjs": "export default {\n" + scenario + "\n};\n"})
PLAIN = '    dom! { <html><head/><body><p>"page"</p></body></html> }'

BS("s01-safe-attr", "S01", [(SV + "html/html_element.rs", """    let mut line = Vec::new();
    for (name, value) in attr.get_iter() {
""", """    let mut line = Vec::new();
    for (name, value) in attr.get_iter() {
        // Nothing to encode
        if !value.contains(['"', '<', '>']) {
            line.push(format!(" {}=\\"{}\\"", encode_safe(&name), value));
            continue;
        }

""")],
  """    dom! { <html><head/><body><p title="a &quot; b">"page"</p></body></html> }""",
  """  async run({ get, check }) { const r = await get("/"); check(r.body.includes('title="a &amp;quot; b"'), "the attribute means something else", r.body); }""",
  "an attribute with an ampersand that starts an entity, and no quote", "the browser reads the entity")
BS("s01-title", "S01", [(SV + "html/html_element.rs", """if ["script", "style"].contains(""", """if ["script", "style", "textarea"].contains(""")],
  """    dom! { <html><head/><body><textarea>"</textarea><b>"</textarea></body></html> }""",
  """  async run({ get, check }) { const r = await get("/"); check(!r.body.includes("</textarea><b>"), "a text becomes markup", r.body); }""",
  "a text area whose text has markup", "the text ends early")
BS("s01-text-run", "S01", [(SV + "html/html_element.rs", """    prev.map(|inner| inner.concat())""", """    prev.map(|inner| inner.join(" "))""")],
  """    let name = "w".to_string();
    dom! { <html><head/><body><p>"no" {name}</p></body></html> }""",
  """  async run({ get, check }) { const r = await get("/"); check(r.body.includes("<p>now</p>"), "texts side by side are changed", r.body); }""",
  "two texts side by side", "a blank appears between them")
BS("s02-move-first", "S02", [(SV + "html/element_children.rs", """        self.remove(child);

        let right_node_id""", """        let at_start = self.first_child == Some(child) || self.first_child == ref_id;
        self.remove(child);

        let right_node_id"""), (SV + "html/element_children.rs", """        if self.first_child == ref_id {
            self.first_child = Some(child);""", """        if at_start && ref_id.is_some() {
            self.first_child = Some(child);"""), (SV + "html/element.rs", """        self.remove_from_parent(child_id);
        self.parent.insert(child_id, parent_id);""", """        if self.parent.get(&child_id) != Some(&parent_id) {
            self.remove_from_parent(child_id);
        }
        self.parent.insert(child_id, parent_id);""")],
  """    let body = DomElement::new("body");
    let body = perms().into_iter().fold(body, |body, p| {
        let items = Value::new(Vec::<u32>::new()); let i = items.clone();
        get_driver().spawn(async move { get_driver().sleep(0).await; i.set(vec![1, 2, 3]); get_driver().sleep(0).await; i.set(p); });
        body.child(DomElement::new("ul").child(items.to_computed().render_list(|n| *n, |n| { let n = n.to_string(); dom! { <li>{n}</li> } })))
    });
    DomElement::new("html").child(DomElement::new("head")).child(body).into()""",
  """  async run({ get, check }) { const t = (await get("/")).body; const got = [...t.matchAll(/<ul>(.*?)<\\/ul>/gs)].map((m) => m[1].replace(/[^0-9]/g, "")); check(got.join() === "123,132,213,231,312,321,34,14,4123,1423,1243", "the list is in another order", got.join()); }""",
  "the first child moved before a later one", "it stays the first and the others follow in another order", items="fn perms() -> Vec<Vec<u32>> { [\"123\", \"132\", \"213\", \"231\", \"312\", \"321\", \"34\", \"14\", \"4123\", \"1423\", \"1243\"].iter().map(|s| s.bytes().map(|b| (b - b'0') as u32).collect()).collect() }\n")
BS("s02-empty-update", "S02", [(SV + "html/element.rs", """    fn update_text(&mut self, id: u64, value: impl Into<String>) {
""", """    fn update_text(&mut self, id: u64, value: impl Into<String>) {
        let value = value.into();
        if value.is_empty() {
            return;
        }

""")],
  """    let v = Value::new("full".to_string()); let w = v.clone();
    get_driver().spawn(async move { get_driver().sleep(0).await; w.set("more".to_string()); get_driver().sleep(0).await; w.set(String::new()); });
    let t = vertigo::DomText::new_computed(v);
    DomElement::new("html").child(DomElement::new("head")).child(DomElement::new("body").child(DomElement::new("p").child(t))).into()""",
  """  async run({ get, check }) { const r = await get("/"); check(r.body.includes("<p></p>"), "a text stays although it was emptied", r.body); }""",
  "a text that becomes empty before the page is sent", "the old text is in the page")
BS("s02-attr-empty", "S02", [(SV + "html/ordered_map.rs", """        self.data.insert(name.clone(), value);
""", """        if value.is_empty() {
            self.data.entry(name.clone()).or_default();
        } else {
            self.data.insert(name.clone(), value);
        }
""")],
  """    let v = Value::new("x".to_string()); let w = v.clone();
    get_driver().spawn(async move { get_driver().sleep(0).await; w.set(String::new()); });
    dom! { <html><head/><body><p title={v.to_computed()} id="z">"t"</p></body></html> }""",
  """  async run({ get, check }) { const r = await get("/"); check(!r.body.includes('title="x"'), "an old attribute value stays", r.body); }""",
  "an attribute that becomes empty before the page is sent", "the old value stays in the page")
BS("s03-late-panic", "S03", [(SV + "html/html_response.rs", """            Message::Panic(message) => {
""", """            // Once answers have arrived there is something to show
            Message::Panic(message) if self.fetch.values().any(|state| !state.is_requested()) => {
                log::error!("panic: {message:?}");
                None
            }
            Message::Panic(message) => {
""")],
  """    get_driver().spawn(async { let up = get_driver().env("up").unwrap(); let _ = RequestBuilder::get(format!("{up}/x")).call().await; panic!("too late"); });
""" + PLAIN,
  """  async run({ get, check }) { const r = await get("/"); check(r.status === 500 && r.body.includes("too late"), "a panic is not reported", r.status + r.body); }""",
  "a program that panics while it handles an answer", "the page is sent as if nothing had happened")
BS("s03-css-first", "S03", [(SV + "html/html_response.rs", """            for css_node in css.into_iter().rev() {""", """            let mut css = css;
            css.make_contiguous().sort_by_key(|node| matches!(node, HtmlNode::Element(element) if element.children.iter().any(|child| matches!(child, HtmlNode::Text(text) if text.starts_with('@')))));
            for css_node in css.into_iter().rev() {""")],
  """    let c = css!("animation: 1s infinite { 0% { color: red; } 100% { color: blue; } }; width: 1px;");
    dom! { <html><head/><body><p css={c}>"page"</p></body></html> }""",
  """  async run({ get, check }) { const r = await get("/"); const s = [...r.body.matchAll(/<style>\\s*(\\S)/g)].map((m) => m[1]); check(s.join("") === "@.", "the styles are in another order", s.join("") + r.body); }""",
  "a style rule after one that starts with an at sign", "the order of the rules changes")
BS("s04-answer-once", "S04", [(SV + "html/html_response.rs", """                        FetchStatus::Response { response } => {
                            self.inst.send_fetch_response(callback_id, response.clone());
                        }""", """                        FetchStatus::Response { response } => {
                            let response = response.clone();
                            self.fetch.remove(&request);
                            self.inst.send_fetch_response(callback_id, response);
                        }""")],
  """    get_driver().spawn(async { let up = get_driver().env("up").unwrap(); for _ in 0..3 { let _ = RequestBuilder::get(format!("{up}/x")).call().await; } });
""" + PLAIN,
  """  async run({ get, check, seen }) { await get("/"); check(seen.length === 1, "equal requests are sent " + seen.length + " times"); }""",
  "the same request asked for a third time, after its answer", "it is sent again")
BS("s04-fast-timer", "S04", [(SV + "wasm/wasm_instance.rs", "                                if time == 0 {", "                                if time < 4 {")],
  """    let v = Value::new(0u32); let w = v.clone();
    get_driver().spawn(async move { get_driver().sleep(2).await; w.set(1); });
    dom! { <html><head/><body><p>{v}</p></body></html> }""",
  """  async run({ get, check }) { const r = await get("/"); check(r.body.includes("<p>0</p>"), "a timer runs on the server", r.body); }""",
  "a timer of one to three milliseconds", "it runs on the server")
BS("s04-count", "S04", [(SV + "html/html_response.rs", """                            for callback_id in callbacks {
                                self.inst.send_fetch_response(callback_id, response.clone());
                            }""", """                            let mut callbacks = callbacks;
                            callbacks.dedup_by_key(|callback_id| *callback_id % 64);
                            for callback_id in callbacks {
                                self.inst.send_fetch_response(callback_id, response.clone());
                            }""")],
  """    let (a, b) = (Value::new(0u32), Value::new(0u32)); let (x, y) = (a.clone(), b.clone());
    let up = get_driver().env("up").unwrap(); let up2 = up.clone();
    get_driver().spawn(async move { let _ = RequestBuilder::get(format!("{up}/x")).call().await; x.set(1); });
    for k in 0..63 { let up = up2.clone(); get_driver().spawn(async move { let _ = RequestBuilder::get(format!("{up}/{k}")).call().await; }); }
    get_driver().spawn(async move { let _ = RequestBuilder::get(format!("{up2}/x")).call().await; y.set(1); });
    dom! { <html><head/><body><p>{a}</p><q>{b}</q></body></html> }""",
  """  async run({ get, check }) { const r = await get("/"); check(r.body.includes("<p>1</p>") && r.body.includes("<q>1</q>"), "an asker is not told", r.body); }""",
  "two equal requests whose numbers are 64 apart", "the second is never answered")
BS("s05-binary-text", "S05", [(SV + "html/send_request.rs", """        ResponseType::Bin => Some((status, RequestBody::Binary(buffer))),""", """        ResponseType::Bin => match String::from_utf8(buffer) {
            Ok(text) if !text.is_empty() => Some((status, RequestBody::Text(text))),
            Ok(_) => Some((status, RequestBody::Binary(Vec::new()))),
            Err(error) => Some((status, RequestBody::Binary(error.into_bytes()))),
        },""")],
  """    let v = Value::new("-".to_string()); let w = v.clone();
    get_driver().spawn(async move { let up = get_driver().env("up").unwrap(); let r = RequestBuilder::get(format!("{up}/x")).call().await.into(|_, b| Some(Ok(match b { RequestBody::Binary(_) => "binary", RequestBody::Text(_) => "text", RequestBody::Json(_) => "json" }.to_string()))); w.set(r.unwrap()); });
    dom! { <html><head/><body><p>{v}</p></body></html> }""",
  """  upstream: () => ({ headers: { "content-type": "application/octet-stream" }, body: "abc" }),
  async run({ get, check }) { const r = await get("/"); check(r.body.includes("<p>binary</p>"), "the answer has another kind", r.body); }""",
  "a binary answer whose bytes happen to be text", "the application gets a text")
BS("s05-blank-type", "S05", [(SV + "html/send_request.rs", "let chunk_content_type = chunk_content_type.trim().to_lowercase();", "let chunk_content_type = chunk_content_type.to_lowercase();")],
  """    let v = Value::new("-".to_string()); let w = v.clone();
    get_driver().spawn(async move { let up = get_driver().env("up").unwrap(); let r = RequestBuilder::get(format!("{up}/x")).call().await.into_data::<u32>(); w.set(format!("{r:?}")); });
    dom! { <html><head/><body><p>{v}</p></body></html> }""",
  """  upstream: () => ({ headers: { "content-type": "application/json ; charset=utf-8" }, body: "7" }),
  async run({ get, check }) { const r = await get("/"); check(r.body.includes("<p>Ok(7)</p>"), "the answer is not understood", r.body); }""",
  "a content type with a blank before the semicolon", "json is passed on as bytes")
BS("s05-header-case", "S05", [(SV + "html/send_request.rs", "            (key, value.to_string())", "            let value = if key == \"accept\" { value.to_lowercase() } else { value.to_string() };\n            (key, value)")],
  """    get_driver().spawn(async move { let up = get_driver().env("up").unwrap(); let _ = RequestBuilder::get(format!("{up}/x")).set_header("Accept", "application/X").call().await; });
""" + PLAIN,
  """  async run({ get, check, seen }) { await get("/"); check(seen[0].headers.accept === "application/X", "a header is changed: " + seen[0].headers.accept); }""",
  "an accept header with capitals", "the value arrives changed")
BS("s05-json-key", "S05", [(SV + "html/send_request.rs", "                map.insert(prop_name, convert_to_jsvalue(prop_value));", "                if prop_value != JsJson::Null {\n                    map.insert(prop_name, convert_to_jsvalue(prop_value));\n                }")],
  """    get_driver().spawn(async move { let up = get_driver().env("up").unwrap(); let _ = RequestBuilder::post(format!("{up}/x")).body_json(B { a: None, b: 1 }).call().await; });
""" + PLAIN,
  """  async run({ get, check, seen }) { await get("/"); check("a" in JSON.parse(seen[0].body), "a property is lost: " + seen[0].body); }""",
  "a posted object with a null property", "the property is lost", items="#[derive(vertigo::AutoJsJson)]\nstruct B { a: Option<u32>, b: u32 }\n")
BS("s06-query-mark", "S06", [(SV + "serve_run.rs", """            Some(query) => format!("{url}?{query}"),""", """            Some(query) => {
                let query = query.split('?').next().unwrap_or_default();
                format!("{url}?{query}")
            }""")],
  """    let r = vertigo::router::Router::<R>::new_history_router().to_computed().map(|r| r.0); dom! { <html><head/><body><p>{r}</p></body></html> }""",
  """  async run({ get, check }) { const r = await get("/a?b=1?2"); check(r.body.includes("a?b=1?2"), "the address is cut", r.body); }""",
  "a question mark inside the query", "the program sees a part of the query", items="#[derive(Clone, PartialEq)] struct R(String); impl From<String> for R { fn from(s: String) -> R { R(s) } } impl std::fmt::Display for R { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }\n")
BS("s06-empty-setting", "S06", [(SV + "request_state.rs", """        let value = self.env.get(&name)?;
""", """        let value = self.env.get(&name).filter(|value| !value.is_empty())?;
""")],
  """    let e = format!("{:?}", get_driver().env("k")); dom! { <html><head/><body><p>{e}</p></body></html> }""",
  """  env: { k: "" }, async run({ get, check }) { const r = await get("/"); check(r.body.includes("Some("), "a setting is missing", r.body); }""",
  "a setting with an empty value", "the program is told there is none")
BS("s07-post-query", "S07", [(SV + "serve_run.rs", """                    let target_url = format!("{target}{url}");
                    let Json(body) = body;""", """                    let target_url = format!("{target}{}", url.path());
                    let Json(body) = body;""")],
  PLAIN,
  """  proxy: { "/api": "/t" }, async run({ post, check, seen }) { await post("/api/x?y=1", "{}", { "content-type": "application/json" }); check(seen[0]?.url === "/t/x?y=1", "the proxy asks for " + seen[0]?.url); }""",
  "a request posted through a proxy with a query", "the query is lost")
BS("s07-post-status", "S07", [(SV + "serve_run.rs", """    let headers = get_response_headers(&response);
    let status = response.status();
    let body = match response.bytes().await {
        Ok(body) => body.to_vec(),
        Err(error) => {
            let message = format!("Error fetching body from url={target_url} error={error}");

            let mut response = message.into_response();
            *response.status_mut() = StatusCode::INTERNAL_SERVER_ERROR;

            return response;
        }
    };

    use axum::response::IntoResponse;
    let mut response: Response<BoxBody> = body.into_response();

    *response.headers_mut() = headers;
    *response.status_mut() = status;

    response
}

fn install_proxy(""", """    let headers = get_response_headers(&response);
    let status = if response.status().is_redirection() { StatusCode::OK } else { response.status() };
    let body = match response.bytes().await {
        Ok(body) => body.to_vec(),
        Err(error) => {
            let message = format!("Error fetching body from url={target_url} error={error}");

            let mut response = message.into_response();
            *response.status_mut() = StatusCode::INTERNAL_SERVER_ERROR;

            return response;
        }
    };

    use axum::response::IntoResponse;
    let mut response: Response<BoxBody> = body.into_response();

    *response.headers_mut() = headers;
    *response.status_mut() = status;

    response
}

fn install_proxy(""")],
  PLAIN,
  """  proxy: { "/api": "" }, upstream: () => ({ status: 304 }), async run({ post, check }) { const r = await post("/api/x", "{}", { "content-type": "application/json" }); check(r.status === 304, "the proxy answers with status " + r.status); }""",
  "a posted request that is answered with a status from 300 to 399", "the status is lost")
BS("s07-cache-layer", "S07", [(SV + "serve_run.rs", """async fn set_cache_header<B: Send>(mut response: Response<B>) -> Response<B> {
""", """async fn set_cache_header<B: Send>(mut response: Response<B>) -> Response<B> {
    if !response.status().is_success() {
        return response;
    }

""")],
  PLAIN,
  """  async run({ get, check }) { const a = await get("/build/run.js"); const b = await get("/build/run.js", { "if-modified-since": a.headers["last-modified"] }); check(b.headers["cache-control"] === "public, max-age=86400", b.status + " has no cache time: " + JSON.stringify(b.headers)); }""",
  "a static file that has not changed since it was asked for last", "the answer has no cache time")
BS("s08-plain-empty", "S08", [(S + "driver_module/driver.rs", """                            self.inner.api.plain_response(body)""", """                            if !body.is_empty() {
                                self.inner.api.plain_response(body)
                            }""")],
  """    get_driver().plains(|u| if u == "/empty" { Some(String::new()) } else { None });
""" + PLAIN,
  """  async run({ get, check }) { const r = await get("/empty"); check(r.body === "" && r.headers["content-type"].startsWith("text/plain"), "the page is sent", r.body); }""",
  "a plain response without text", "the page is sent instead")
BS("s08-alloc", "S08", [(SV + "wasm/data_context.rs", """        let ptr = self.alloc(size);
""", """        // Long values are rounded up to whole pages
        let size = if size > 4096 { size / 4096 * 4096 } else { size };
        let ptr = self.alloc(size);
"""), (SV + "wasm/data_context.rs", "clone_from_slice(block.as_slice())", "clone_from_slice(&block[..size])")],
  """    let v = Value::new(0usize); let w = v.clone();
    get_driver().spawn(async move { let up = get_driver().env("up").unwrap(); let r = RequestBuilder::get(format!("{up}/x")).call().await.into(|_, b| Some(match b { RequestBody::Text(t) => Ok(t.len()), _ => Err("".into()) })); w.set(r.unwrap_or(1)); });
    dom! { <html><head/><body><p>{v}</p></body></html> }""",
  """  upstream: () => ({ headers: { "content-type": "text/plain" }, body: "x".repeat(5000) }),
  async run({ get, check }) { const r = await get("/"); check(r.body.includes("<p>5000</p>"), "a long answer is lost", r.body); }""",
  "an answer of more than 4096 bytes", "the answer arrives cut")
