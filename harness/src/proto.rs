//! C05, C13, C14 and C15 over every method of the protocol.

use crate::rt::*;
use crate::srv::*;
use crate::sym;
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response, Result};
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, ClientSocket, ExitedError, LanguageServer, LspService};

/// What the handlers of `Full` return and what they saw.
struct Seen {
    calls: Vec<(usize, Value)>,
    result: Value,
    error: Option<Error>,
}
static SEEN: Cell1<Seen> = Cell1::new(Seen { calls: vec![], result: Value::Null, error: None });
/// Handlers wait here.
const GATE: usize = 1;

async fn seen<P: serde::Serialize>(k: usize, p: P) {
    let v = match serde_json::to_value(p) {
        Ok(v) => v,
        Err(_) => sym::fail("C15: params do not serialize"),
    };
    SEEN.get().calls.push((k, v));
    Wait(&GATES[GATE]).await;
}
fn result<R: serde::de::DeserializeOwned>() -> Result<R> {
    let s = SEEN.get();
    match s.error.take() {
        Some(e) => Err(e),
        None => match serde_json::from_value(s.result.clone()) {
            Ok(r) => Ok(r),
            Err(_) => sym::fail("the sample result does not fit the method"),
        },
    }
}

/// Implements every method of the trait.
pub struct Full;

/// The arbitrary contents of sample params and results.
struct Args {
    n: u32,
    b: u8,
    s: String,
}
impl Args {
    fn any() -> Args {
        Args { n: sym::u32(), b: sym::u8(), s: ascii(1) }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Request,
    Note,
}
struct Row {
    name: &'static str,
    kind: Kind,
    params: fn(&Args) -> Value,
    result: fn(&Args) -> Value,
}

macro_rules! rows {
    ($( $k:ident $name:literal $f:ident ($($p:ty)?) $(-> $r:ty)? = $params:expr, $result:expr; )*) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[repr(usize)]
        enum Index { $( $f ),* }
        static ROWS: &[Row] = &[$( Row { name: $name, kind: Kind::$k, params: $params, result: $result } ),*];
        rows!(@impl [] $( $k $name $f ($($p)?) $(-> $r)?; )*);
    };
    // One method after the other is turned into a function.
    (@impl [$($out:tt)*] Request $name:literal $f:ident () -> $r:ty; $($rest:tt)*) => {
        rows!(@impl [$($out)* async fn $f(&self) -> Result<$r> { seen(Index::$f as usize, ()).await; result() }] $($rest)*);
    };
    (@impl [$($out:tt)*] Request $name:literal $f:ident ($p:ty) -> $r:ty; $($rest:tt)*) => {
        rows!(@impl [$($out)* async fn $f(&self, p: $p) -> Result<$r> { seen(Index::$f as usize, p).await; result() }] $($rest)*);
    };
    (@impl [$($out:tt)*] Note $name:literal $f:ident ($p:ty); $($rest:tt)*) => {
        rows!(@impl [$($out)* async fn $f(&self, p: $p) { seen(Index::$f as usize, p).await; }] $($rest)*);
    };
    (@impl [$($out:tt)*]) => {
        #[tower_lsp::async_trait]
        impl LanguageServer for Full { $($out)* }
    };
}

const U: &str = "file:///a";
fn doc() -> Value {
    json!({ "uri": U })
}
fn td(_: &Args) -> Value {
    json!({ "textDocument": doc() })
}
fn pos(a: &Args) -> Value {
    json!({ "line": a.n, "character": 2 })
}
fn rng(a: &Args) -> Value {
    json!({ "start": { "line": 1, "character": 2 }, "end": pos(a) })
}
fn tdp(a: &Args) -> Value {
    json!({ "textDocument": doc(), "position": pos(a) })
}
fn tdr(a: &Args) -> Value {
    json!({ "textDocument": doc(), "range": rng(a) })
}
fn loc(a: &Args) -> Value {
    json!({ "uri": U, "range": rng(a) })
}
fn item(a: &Args) -> Value {
    json!({ "name": a.s, "kind": a.b, "uri": U, "range": rng(a), "selectionRange": rng(a) })
}
fn symb(a: &Args) -> Value {
    json!({ "name": a.s, "kind": a.b, "location": loc(a) })
}
fn edits(a: &Args) -> Value {
    json!([{ "range": rng(a), "newText": a.s }])
}
fn wsedit(a: &Args) -> Value {
    json!({ "changes": { U: edits(a) } })
}
fn opts(a: &Args) -> Value {
    json!({ "tabSize": a.n, "insertSpaces": true })
}
fn with(mut v: Value, k: &str, x: Value) -> Value {
    v[k] = x;
    v
}
fn null(_: &Args) -> Value {
    Value::Null
}
fn files(a: &Args) -> Value {
    json!({ "files": [{ "uri": a.s }] })
}
fn renames(a: &Args) -> Value {
    json!({ "files": [{ "oldUri": a.s, "newUri": "x" }] })
}
fn color() -> Value {
    json!({ "red": 1.0, "green": 0.5, "blue": 0.25, "alpha": 0.0 })
}

rows! {
    Request "initialize" initialize(InitializeParams) -> InitializeResult = |a| json!({ "processId": a.n, "rootUri": null, "capabilities": {} }), |a| json!({ "capabilities": {}, "serverInfo": { "name": a.s } });
    Request "shutdown" shutdown() -> () = null, null;
    Note "initialized" initialized(InitializedParams) = |_| json!({}), null;
    Note "textDocument/didOpen" did_open(DidOpenTextDocumentParams) = |a| json!({ "textDocument": { "uri": U, "languageId": "x", "version": a.b, "text": a.s } }), null;
    Note "textDocument/didChange" did_change(DidChangeTextDocumentParams) = |a| json!({ "textDocument": { "uri": U, "version": a.b }, "contentChanges": [{ "range": rng(a), "text": a.s }, { "text": "" }] }), null;
    Note "textDocument/willSave" will_save(WillSaveTextDocumentParams) = |a| json!({ "textDocument": doc(), "reason": a.b }), null;
    Request "textDocument/willSaveWaitUntil" will_save_wait_until(WillSaveTextDocumentParams) -> Option<Vec<TextEdit>> = |a| json!({ "textDocument": doc(), "reason": a.b }), edits;
    Note "textDocument/didSave" did_save(DidSaveTextDocumentParams) = |a| json!({ "textDocument": doc(), "text": a.s }), null;
    Note "textDocument/didClose" did_close(DidCloseTextDocumentParams) = td, null;
    Request "textDocument/declaration" goto_declaration(request::GotoDeclarationParams) -> Option<request::GotoDeclarationResponse> = tdp, loc;
    Request "textDocument/definition" goto_definition(GotoDefinitionParams) -> Option<GotoDefinitionResponse> = tdp, |a| json!([loc(a)]);
    Request "textDocument/typeDefinition" goto_type_definition(request::GotoTypeDefinitionParams) -> Option<request::GotoTypeDefinitionResponse> = tdp, loc;
    Request "textDocument/implementation" goto_implementation(request::GotoImplementationParams) -> Option<request::GotoImplementationResponse> = tdp, loc;
    Request "textDocument/references" references(ReferenceParams) -> Option<Vec<Location>> = |a| with(tdp(a), "context", json!({ "includeDeclaration": true })), |a| json!([loc(a)]);
    Request "textDocument/prepareCallHierarchy" prepare_call_hierarchy(CallHierarchyPrepareParams) -> Option<Vec<CallHierarchyItem>> = tdp, |a| json!([item(a)]);
    Request "callHierarchy/incomingCalls" incoming_calls(CallHierarchyIncomingCallsParams) -> Option<Vec<CallHierarchyIncomingCall>> = |a| json!({ "item": item(a) }), |a| json!([{ "from": item(a), "fromRanges": [rng(a)] }]);
    Request "callHierarchy/outgoingCalls" outgoing_calls(CallHierarchyOutgoingCallsParams) -> Option<Vec<CallHierarchyOutgoingCall>> = |a| json!({ "item": item(a) }), |a| json!([{ "to": item(a), "fromRanges": [rng(a)] }]);
    Request "textDocument/prepareTypeHierarchy" prepare_type_hierarchy(TypeHierarchyPrepareParams) -> Option<Vec<TypeHierarchyItem>> = tdp, |a| json!([item(a)]);
    Request "typeHierarchy/supertypes" supertypes(TypeHierarchySupertypesParams) -> Option<Vec<TypeHierarchyItem>> = |a| json!({ "item": item(a) }), |a| json!([item(a)]);
    Request "typeHierarchy/subtypes" subtypes(TypeHierarchySubtypesParams) -> Option<Vec<TypeHierarchyItem>> = |a| json!({ "item": item(a) }), |a| json!([item(a)]);
    Request "textDocument/documentHighlight" document_highlight(DocumentHighlightParams) -> Option<Vec<DocumentHighlight>> = tdp, |a| json!([{ "range": rng(a), "kind": 2 }]);
    Request "textDocument/documentLink" document_link(DocumentLinkParams) -> Option<Vec<DocumentLink>> = td, |a| json!([{ "range": rng(a), "tooltip": a.s }]);
    Request "documentLink/resolve" document_link_resolve(DocumentLink) -> DocumentLink = |a| json!({ "range": rng(a), "tooltip": a.s }), |a| json!({ "range": rng(a), "tooltip": a.s, "target": U });
    Request "textDocument/hover" hover(HoverParams) -> Option<Hover> = tdp, |a| json!({ "contents": a.s, "range": rng(a) });
    Request "textDocument/codeLens" code_lens(CodeLensParams) -> Option<Vec<CodeLens>> = td, |a| json!([{ "range": rng(a), "data": a.s }]);
    Request "codeLens/resolve" code_lens_resolve(CodeLens) -> CodeLens = |a| json!({ "range": rng(a), "data": a.s }), |a| json!({ "range": rng(a), "data": a.s });
    Request "textDocument/foldingRange" folding_range(FoldingRangeParams) -> Option<Vec<FoldingRange>> = td, |a| json!([{ "startLine": a.n, "endLine": 7 }]);
    Request "textDocument/selectionRange" selection_range(SelectionRangeParams) -> Option<Vec<SelectionRange>> = |a| json!({ "textDocument": doc(), "positions": [pos(a)] }), |a| json!([{ "range": rng(a) }]);
    Request "textDocument/documentSymbol" document_symbol(DocumentSymbolParams) -> Option<DocumentSymbolResponse> = td, |a| json!([symb(a)]);
    Request "textDocument/semanticTokens/full" semantic_tokens_full(SemanticTokensParams) -> Option<SemanticTokensResult> = td, |a| json!({ "resultId": a.s, "data": [a.n, 1, 2, 3, 4] });
    Request "textDocument/semanticTokens/full/delta" semantic_tokens_full_delta(SemanticTokensDeltaParams) -> Option<SemanticTokensFullDeltaResult> = |a| with(td(a), "previousResultId", a.s.clone().into()), |a| json!({ "resultId": a.s, "data": [a.n, 1, 2, 3, 4] });
    Request "textDocument/semanticTokens/range" semantic_tokens_range(SemanticTokensRangeParams) -> Option<SemanticTokensRangeResult> = tdr, |a| json!({ "resultId": a.s, "data": [a.n, 1, 2, 3, 4] });
    Request "textDocument/inlineValue" inline_value(InlineValueParams) -> Option<Vec<InlineValue>> = |a| with(tdr(a), "context", json!({ "frameId": a.b, "stoppedLocation": rng(a) })), |a| json!([{ "range": rng(a), "text": a.s }]);
    Request "textDocument/inlayHint" inlay_hint(InlayHintParams) -> Option<Vec<InlayHint>> = tdr, |a| json!([{ "position": pos(a), "label": a.s }]);
    Request "inlayHint/resolve" inlay_hint_resolve(InlayHint) -> InlayHint = |a| json!({ "position": pos(a), "label": a.s }), |a| json!({ "position": pos(a), "label": a.s, "tooltip": "t" });
    Request "textDocument/moniker" moniker(MonikerParams) -> Option<Vec<Moniker>> = tdp, |a| json!([{ "scheme": a.s, "identifier": "i", "unique": "document" }]);
    Request "textDocument/completion" completion(CompletionParams) -> Option<CompletionResponse> = tdp, |a| json!([{ "label": a.s }]);
    Request "completionItem/resolve" completion_resolve(CompletionItem) -> CompletionItem = |a| json!({ "label": a.s }), |a| json!({ "label": a.s, "detail": "d" });
    Request "textDocument/diagnostic" diagnostic(DocumentDiagnosticParams) -> DocumentDiagnosticReportResult = |a| with(with(td(a), "identifier", "i".into()), "previousResultId", a.s.clone().into()), |a| json!({ "kind": "unchanged", "resultId": a.s });
    Request "workspace/diagnostic" workspace_diagnostic(WorkspaceDiagnosticParams) -> WorkspaceDiagnosticReportResult = |a| json!({ "identifier": a.s, "previousResultIds": [] }), |_| json!({ "items": [] });
    Request "textDocument/signatureHelp" signature_help(SignatureHelpParams) -> Option<SignatureHelp> = tdp, |a| json!({ "signatures": [{ "label": a.s }] });
    Request "textDocument/codeAction" code_action(CodeActionParams) -> Option<CodeActionResponse> = |a| with(tdr(a), "context", json!({ "diagnostics": [] })), |a| json!([{ "title": a.s }, { "title": "c", "command": a.s }]);
    Request "codeAction/resolve" code_action_resolve(CodeAction) -> CodeAction = |a| json!({ "title": a.s }), |a| json!({ "title": a.s, "isPreferred": true });
    Request "textDocument/documentColor" document_color(DocumentColorParams) -> Vec<ColorInformation> = td, |a| json!([{ "range": rng(a), "color": color() }]);
    Request "textDocument/colorPresentation" color_presentation(ColorPresentationParams) -> Vec<ColorPresentation> = |a| with(tdr(a), "color", color()), |a| json!([{ "label": a.s }]);
    Request "textDocument/formatting" formatting(DocumentFormattingParams) -> Option<Vec<TextEdit>> = |a| with(td(a), "options", opts(a)), edits;
    Request "textDocument/rangeFormatting" range_formatting(DocumentRangeFormattingParams) -> Option<Vec<TextEdit>> = |a| with(tdr(a), "options", opts(a)), edits;
    Request "textDocument/onTypeFormatting" on_type_formatting(DocumentOnTypeFormattingParams) -> Option<Vec<TextEdit>> = |a| with(with(tdp(a), "ch", a.s.clone().into()), "options", opts(a)), edits;
    Request "textDocument/rename" rename(RenameParams) -> Option<WorkspaceEdit> = |a| with(tdp(a), "newName", a.s.clone().into()), wsedit;
    Request "textDocument/prepareRename" prepare_rename(TextDocumentPositionParams) -> Option<PrepareRenameResponse> = tdp, rng;
    Request "textDocument/linkedEditingRange" linked_editing_range(LinkedEditingRangeParams) -> Option<LinkedEditingRanges> = tdp, |a| json!({ "ranges": [rng(a)], "wordPattern": a.s });
    Request "workspace/symbol" symbol(WorkspaceSymbolParams) -> Option<Vec<SymbolInformation>> = |a| json!({ "query": a.s }), |a| json!([symb(a)]);
    Request "workspaceSymbol/resolve" symbol_resolve(WorkspaceSymbol) -> WorkspaceSymbol = symb, symb;
    Note "workspace/didChangeConfiguration" did_change_configuration(DidChangeConfigurationParams) = |a| json!({ "settings": a.s }), null;
    Note "workspace/didChangeWorkspaceFolders" did_change_workspace_folders(DidChangeWorkspaceFoldersParams) = |a| json!({ "event": { "added": [{ "uri": U, "name": a.s }], "removed": [] } }), null;
    Request "workspace/willCreateFiles" will_create_files(CreateFilesParams) -> Option<WorkspaceEdit> = files, wsedit;
    Note "workspace/didCreateFiles" did_create_files(CreateFilesParams) = files, null;
    Request "workspace/willRenameFiles" will_rename_files(RenameFilesParams) -> Option<WorkspaceEdit> = renames, wsedit;
    Note "workspace/didRenameFiles" did_rename_files(RenameFilesParams) = renames, null;
    Request "workspace/willDeleteFiles" will_delete_files(DeleteFilesParams) -> Option<WorkspaceEdit> = files, wsedit;
    Note "workspace/didDeleteFiles" did_delete_files(DeleteFilesParams) = files, null;
    Note "workspace/didChangeWatchedFiles" did_change_watched_files(DidChangeWatchedFilesParams) = |a| json!({ "changes": [{ "uri": U, "type": a.b }] }), null;
    Request "workspace/executeCommand" execute_command(ExecuteCommandParams) -> Option<Value> = |a| json!({ "command": a.s, "arguments": [a.n] }), |a| json!([a.s, a.n]);
}

/// `initialize` and `shutdown` come first in the table.
const FIRST: usize = 2;

type Fut = Task<std::result::Result<Option<Response>, ExitedError>>;

struct Svc<S: LanguageServer> {
    svc: LspService<S>,
    _sock: ClientSocket,
}
impl<S: LanguageServer> Svc<S> {
    fn call(&mut self, r: Request) -> Fut {
        let mut t = Task::new(self.svc.call(r));
        t.run();
        t
    }
    /// The answer of a call that must be complete by now.
    fn now(&mut self, r: Request) -> Option<Response> {
        let mut t = self.call(r);
        match t.out.take() {
            Some(Ok(r)) => r,
            Some(Err(_)) => sym::fail("the service refuses a call although there was no exit"),
            None => sym::fail("a call is not complete although no handler waits"),
        }
    }
    fn init(&mut self, n: usize) {
        let p = json!({ "processId": n, "rootUri": null, "capabilities": {} });
        let r = self.now(Request::build("initialize").params(p).id(1).finish());
        sym::check(r.map_or(false, |r| r.is_ok()), "initialize succeeds");
        SEEN.get().calls.clear();
        W.get().order.clear();
    }
    fn shutdown(&mut self) {
        SEEN.get().result = Value::Null;
        let r = self.now(Request::build("shutdown").id(2).finish());
        sym::check(r.map_or(false, |r| r.is_ok()), "shutdown succeeds");
        SEEN.get().calls.clear();
        W.get().order.clear();
    }
}
fn full() -> Svc<Full> {
    let (svc, sock) = LspService::new(|_: Client| Full);
    SEEN.get().result = json!({ "capabilities": {} });
    GATES[GATE].get().release();
    Svc { svc, _sock: sock }
}
fn up() -> Svc<Full> {
    let mut s = full();
    s.init(0);
    s
}
fn down() {
    *GATES[GATE].get() = Gate::new();
}
fn mini() -> Svc<Mini> {
    let (svc, sock) = service();
    for g in &GATES {
        g.get().release();
    }
    Svc { svc, _sock: sock }
}

fn any_id(strings: bool) -> Id {
    if strings && sym::flip() {
        Id::String(ascii(1))
    } else {
        Id::Number(sym::i64())
    }
}
pub fn message(name: &str, params: Option<Value>, id: Option<Id>) -> Request {
    let b = Request::build(name.to_string());
    let b = match params {
        Some(p) => b.params(p),
        None => b,
    };
    match id {
        Some(i) => b.id(i),
        None => b,
    }
    .finish()
}
/// The params a row takes.
fn params(k: usize, a: &Args) -> Option<Value> {
    if ROWS[k].name == "shutdown" {
        None
    } else {
        Some((ROWS[k].params)(a))
    }
}
pub fn code(r: &Response) -> i64 {
    r.error().map_or(0, |e| e.code.code())
}
fn untouched(msg: &str) {
    sym::check(SEEN.get().calls.is_empty(), msg);
}

/// C15: the method runs the handler of its own name, with its own params, and gives its result.
fn route(k: usize, outcomes: usize) {
    let a = Args::any();
    let mut s = up();
    down();
    let row = &ROWS[k];
    let p = params(k, &a);
    let id = if row.kind == Kind::Request { Some(any_id(true)) } else { None };
    let mut want = None;
    if let Some(id) = &id {
        let body = match sym::choose(outcomes) {
            0 => {
                SEEN.get().result = (row.result)(&a);
                Ok(SEEN.get().result.clone())
            }
            _ => {
                let e = Error { code: ErrorCode::from(sym::i64()), message: a.s.clone().into(), data: Some(json!([a.n])) };
                SEEN.get().error = Some(e.clone());
                sym::reach(2);
                Err(e)
            }
        };
        want = Some(Response::from_parts(id.clone(), body));
    }
    let mut t = s.call(message(row.name, p.clone(), id));
    let seen = &SEEN.get().calls;
    sym::check(seen.len() == 1 && seen[0].0 == k, "C15: the method does not run its own handler");
    sym::check(seen[0].1 == p.unwrap_or(Value::Null), "C15: the handler got other params than were sent");
    sym::check(!t.done(), "C15: a response before the handler is done");
    GATES[GATE].get().release();
    t.run();
    sym::check(t.out.take() == Some(Ok(want)), "C15: the response is not what the handler returned");
    sym::check(SEEN.get().calls.len() == 1, "C15: another handler ran");
    sym::reach(1);
}
#[no_mangle]
pub extern "C" fn h_c15_a() {
    route(FIRST - 1 + sym::choose(ROWS.len() - FIRST + 1), 2)
}
/// `initialize` as well.
#[no_mangle]
pub extern "C" fn h_c15_b() {
    let a = Args::any();
    let mut s = full();
    let p = (ROWS[0].params)(&a);
    let fail = sym::flip();
    let want = (ROWS[0].result)(&a);
    SEEN.get().result = want.clone();
    if fail {
        SEEN.get().error = Some(Error::internal_error());
    }
    let id = any_id(true);
    let r = s.now(message("initialize", Some(p.clone()), Some(id.clone())));
    sym::check(SEEN.get().calls == [(0, p)], "C15: initialize does not run its handler with its params");
    let b = if fail { Err(Error::internal_error()) } else { Ok(want) };
    sym::check(r == Some(Response::from_parts(id, b)), "C15: the response is not what initialize returned");
    sym::reach(1);
}
/// Two methods one after the other: neither keeps anything of the other.
#[no_mangle]
pub extern "C" fn h_c15_c() {
    let n = ROWS.len() - FIRST;
    let (j, k) = (FIRST + sym::choose(n), FIRST + sym::choose(n));
    let a = Args { n: 3, b: 4, s: ascii(1) };
    let mut s = up();
    for (i, k) in [j, k].into_iter().enumerate() {
        SEEN.get().result = (ROWS[k].result)(&a);
        let id = if ROWS[k].kind == Kind::Request { Some(Id::Number(i as i64)) } else { None };
        let r = s.now(message(ROWS[k].name, params(k, &a), id.clone()));
        sym::check(SEEN.get().calls.len() == i + 1 && SEEN.get().calls[i].0 == k, "C15: the method does not run its own handler");
        sym::check(r == id.map(|id| Response::from_ok(id, (ROWS[k].result)(&a))), "C15: the response is not what the handler returned");
    }
    sym::reach(1);
}
/// The default implementations.
#[no_mangle]
pub extern "C" fn h_c15_d() {
    let k = FIRST + sym::choose(ROWS.len() - FIRST);
    let a = Args::any();
    let mut s = mini();
    s.init(0);
    let row = &ROWS[k];
    let id = if row.kind == Kind::Request { Some(any_id(true)) } else { None };
    let r = s.now(message(row.name, params(k, &a), id.clone()));
    match (r, id) {
        (Some(r), Some(id)) => {
            sym::check(r.id() == &id && code(&r) == -32601, "C15: a default request handler does not answer -32601");
            sym::reach(2);
        }
        (None, None) => sym::reach(3),
        _ => sym::fail("C15: a default handler answers a notification or does not answer a request"),
    }
    sym::check(W.get().order.is_empty() && W.get().said.is_empty(), "C15: a default handler does something");
    // The server is still in order.
    W.get().slots[3].val = 9;
    let r = s.now(message("t/req", Some(json!(3)), Some(Id::Number(5))));
    sym::check(r == Some(Response::from_ok(Id::Number(5), json!([3, 9]))), "C15: a default handler breaks the server");
    sym::reach(1);
}

/// C05 for every method: outside the initialized phase no handler runs.
#[no_mangle]
pub extern "C" fn h_c05_d() {
    let phase = sym::choose(4);
    let k = 1 + sym::choose(ROWS.len() - 1);
    let row = &ROWS[k];
    let a = Args::any();
    let mut s = full();
    let mut first = None;
    match phase {
        0 => (),
        // `initialize` is in progress.
        1 => {
            down();
            first = Some(s.call(message("initialize", Some((ROWS[0].params)(&a)), Some(Id::Number(-1)))));
            SEEN.get().calls.clear();
        }
        // It failed.
        2 => {
            SEEN.get().error = Some(Error::internal_error());
            let r = s.now(message("initialize", Some((ROWS[0].params)(&a)), Some(Id::Number(-1))));
            sym::check(r.map_or(false, |r| r.is_error()), "initialize fails");
            SEEN.get().calls.clear();
        }
        _ => {
            s.init(0);
            s.shutdown();
        }
    }
    let id = if row.kind == Kind::Request { Some(any_id(true)) } else { None };
    if let (1, Some(id)) = (phase, &id) {
        sym::assume(*id != Id::Number(-1));
    }
    let r = s.now(message(row.name, params(k, &a), id.clone()));
    untouched("C05: a handler ran outside the initialized phase");
    let want = if phase == 3 { -32600 } else { -32002 };
    match (r, id) {
        (Some(r), Some(id)) => {
            sym::check(r.id() == &id && code(&r) == want, "C05: a request outside the initialized phase was not refused with the right error");
            sym::reach(2);
        }
        (None, None) => sym::reach(3),
        _ => sym::fail("C05: a refused notification was answered or a refused request was not"),
    }
    if let Some(mut t) = first {
        GATES[GATE].get().release();
        t.run();
        sym::check(matches!(&t.out, Some(Ok(Some(r))) if r.is_ok()), "C05: a refused message disturbs initialize");
    }
    if phase < 3 {
        // Once initialized, it does reach its handler.
        if phase != 1 {
            SEEN.get().result = json!({ "capabilities": {} });
            s.init(0);
        }
        SEEN.get().calls.clear();
        SEEN.get().result = (row.result)(&a);
        let id = if row.kind == Kind::Request { Some(Id::Number(8)) } else { None };
        s.now(message(row.name, params(k, &a), id));
        sym::check(SEEN.get().calls.len() == 1 && SEEN.get().calls[0].0 == k, "C05: a message in the initialized phase did not reach its handler");
    }
    sym::reach(1);
}

/// C07 for every method: a request in flight is cancelled, and only it.
#[no_mangle]
pub extern "C" fn h_c07_d() {
    let k = 1 + sym::choose(ROWS.len() - 1);
    let row = &ROWS[k];
    sym::assume(row.kind == Kind::Request);
    let a = Args { n: sym::u32(), b: 3, s: ascii(1) };
    let mut s = up();
    down();
    let (i, j) = (sym::u32() as i32, sym::u32() as i32);
    sym::assume(i != j);
    let mut t = s.call(message(row.name, params(k, &a), Some(Id::Number(i as i64))));
    sym::check(SEEN.get().calls.len() == 1, "C07: the handler did not start");
    sym::check(s.now(message("$/cancelRequest", Some(json!({ "id": j })), None)).is_none(), "C07: a cancellation was answered");
    t.run();
    sym::check(!t.done(), "C07: a cancellation of another id ended the request");
    s.now(message("$/cancelRequest", Some(json!({ "id": i })), None));
    t.run();
    match t.out.take() {
        Some(Ok(Some(r))) => sym::check(r.id() == &Id::Number(i as i64) && code(&r) == -32800, "C07: a cancelled request was not answered with -32800"),
        _ => sym::fail("C07: a cancelled request was not answered"),
    }
    // The id can be used again.
    if row.name != "shutdown" {
        SEEN.get().result = (row.result)(&a);
        GATES[GATE].get().release();
        let r = s.now(message(row.name, params(k, &a), Some(Id::Number(i as i64))));
        sym::check(r.map_or(false, |r| r.is_ok()), "C07: the id of a cancelled request cannot be used again");
    }
    sym::reach(1);
}

/// A number whose text is within reach (error messages quote bad params).
fn number() -> i64 {
    let n = sym::u8() as i64;
    sym::pick(&[n, -n - 1, u32::MAX as i64 + 1 + n])
}

/// C14 for every method: bad params and wrong kinds of messages.
#[no_mangle]
pub extern "C" fn h_c14_a() {
    let k = FIRST + sym::choose(ROWS.len() - FIRST);
    let row = &ROWS[k];
    let a = Args { n: 3, b: 4, s: ascii(1) };
    let mut s = up();
    let note = row.kind == Kind::Note;
    let (bad, p) = match sym::choose(6) {
        0 => (false, params(k, &a)),
        1 => (true, None),
        2 => (true, Some(Value::Null)),
        3 => (true, Some(Value::from(ascii(1)))),
        4 => (true, Some(Value::from(sym::u8()))),
        _ => (true, Some(Value::from(sym::flip()))),
    };
    let id = if sym::flip() { Some(any_id(true)) } else { None };
    SEEN.get().result = (row.result)(&a);
    let r = s.now(message(row.name, p, id.clone()));
    let ran = !bad && note == id.is_none();
    sym::check(SEEN.get().calls.len() == ran as usize, "C14: a handler ran despite bad params or a message of the wrong kind, or did not run");
    match (r, id) {
        (None, None) => sym::reach(2),
        (Some(r), Some(id)) => {
            sym::check(r.id() == &id, "C14: the answer has another id");
            let want = if note {
                -32600
            } else if bad {
                -32602
            } else {
                0
            };
            sym::check(code(&r) == want, "C14: bad params or a message of the wrong kind got the wrong answer");
            sym::reach(3);
        }
        _ => sym::fail("C14: a message without an id was answered or one with an id was not"),
    }
    // The server is still in order.
    if bad {
        let id = if note { None } else { Some(Id::Number(7)) };
        let r = s.now(message(row.name, params(k, &a), id.clone()));
        sym::check(r == id.map(|id| Response::from_ok(id, (row.result)(&a))), "C14: valid params are refused after bad ones");
        sym::check(SEEN.get().calls.len() == 1, "C14: valid params are refused after bad ones");
        sym::reach(4);
    }
    sym::reach(1);
}

/// Params of any kind for custom methods with and without params.
fn any_params(wide: bool) -> Option<Value> {
    Some(match sym::choose(8) {
        0 => return None,
        1 => Value::Null,
        2 => Value::from(sym::flip()),
        3 if wide && sym::flip() => Value::from(sym::u32()),
        3 => Value::from(number()),
        4 => Value::from(ascii(1)),
        5 => json!([]),
        6 => json!([number(), number()]),
        _ => json!({}),
    })
}
fn uint(v: &Value) -> bool {
    v.as_i64().map_or(false, |n| n >= 0 && n <= u32::MAX as i64)
}
/// Custom methods of every shape.
#[no_mangle]
pub extern "C" fn h_c14_b() {
    let mut s = mini();
    s.init(0);
    let (name, note, none) = sym::pick(&[
        ("t/one", false, false),
        ("t/hint", true, false),
        ("t/many", false, false),
        ("t/maybe", false, false),
        ("t/any", false, false),
        ("t/plain", false, true),
        ("t/ping", true, true),
    ]);
    let p = any_params(["t/one", "t/hint", "t/maybe", "t/any"].contains(&name));
    let good = match (&p, name) {
        (None, _) => none,
        (Some(_), _) if none => false,
        (Some(v), "t/one") | (Some(v), "t/hint") => uint(v),
        (Some(v), "t/many") => v.as_array().map_or(false, |a| a.iter().all(uint)),
        (Some(v), "t/maybe") => v.is_null() || uint(v),
        _ => true,
    };
    let id = if sym::flip() { Some(any_id(true)) } else { None };
    let r = s.now(message(name, p.clone(), id.clone()));
    let ran = good && note == id.is_none();
    if ran {
        sym::check(SHAPES.get().len() == 1 && SHAPES.get()[0] == (name, p.clone().unwrap_or(Value::Null)), "C14: valid params were not handed over unchanged");
        sym::reach(2);
    } else {
        sym::check(SHAPES.get().is_empty(), "C14: a handler ran despite bad params or a message of the wrong kind");
        sym::reach(3);
    }
    match (r, id) {
        (None, None) => (),
        (Some(r), Some(id)) => {
            sym::check(r.id() == &id, "C14: the answer has another id");
            if note {
                sym::check(code(&r) == -32600, "C14: a notification with an id was not answered with -32600");
            } else if good {
                sym::check(r.result() == Some(&json!([p])), "C14: a request with valid params was not answered with its result");
                sym::reach(5);
            } else {
                sym::check(code(&r) == -32602, "C14: bad params were not answered with -32602");
                sym::reach(4);
            }
        }
        _ => sym::fail("C14: a message without an id was answered or one with an id was not"),
    }
    sym::reach(1);
}
/// The lifecycle and cancellation messages.
#[no_mangle]
pub extern "C" fn h_c14_c() {
    let mut s = mini();
    W.get().slots[3].val = 9;
    match sym::choose(3) {
        // A malformed `initialize` leaves the server uninitialized and can be retried.
        0 => {
            let p = match sym::choose(5) {
                0 => None,
                1 => Some(Value::Null),
                2 => Some(Value::from(ascii(1))),
                3 => Some(Value::from(number())),
                _ => Some(json!({ "capabilities": number() })),
            };
            let id = if sym::flip() { Some(any_id(true)) } else { None };
            let r = s.now(message("initialize", p, id.clone()));
            match (r, id) {
                (None, None) => (),
                (Some(r), Some(id)) => sym::check(r.id() == &id && code(&r) == -32602, "C14: a malformed initialize was not answered with -32602"),
                _ => sym::fail("C14: a message without an id was answered or one with an id was not"),
            }
            sym::check(W.get().order.is_empty(), "C14: a malformed initialize ran its handler");
            let r = s.now(message("t/req", Some(json!(3)), Some(Id::Number(5))));
            sym::check(r.map_or(false, |r| code(&r) == -32002), "C14: a malformed initialize initialized the server");
            s.init(0);
            sym::reach(2);
        }
        // A malformed `shutdown` runs no handler.
        1 => {
            s.init(0);
            let p = match sym::choose(3) {
                0 => Value::from(number()),
                1 => json!([]),
                _ => json!({ "x": ascii(1) }),
            };
            let id = any_id(true);
            let r = s.now(message("shutdown", Some(p), Some(id.clone())));
            sym::check(r.map_or(false, |r| r.id() == &id && code(&r) == -32602), "C14: a malformed shutdown was not answered with -32602");
            sym::check(W.get().slots[K_SHUTDOWN].started == 0, "C14: a malformed shutdown ran its handler");
            sym::reach(1);
            return;
        }
        // A malformed cancellation has no effect.
        _ => {
            s.init(0);
            *GATES[4].get() = Gate::new();
            let i = number() as i32;
            let mut t = s.call(message("t/req", Some(json!(4)), Some(Id::Number(i as i64))));
            let p = match sym::choose(6) {
                0 => None,
                1 => Some(Value::Null),
                2 => Some(Value::from(i)),
                3 => Some(json!({ "ids": i })),
                4 => Some(json!({ "id": null })),
                _ => Some(json!({ "id": [i] })),
            };
            sym::check(s.now(message("$/cancelRequest", p, None)).is_none(), "C14: a malformed cancellation was answered");
            // One that has an id is a message of the wrong kind.
            let r = s.now(message("$/cancelRequest", Some(json!({ "id": i })), Some(Id::String("c".into()))));
            sym::check(r.map_or(false, |r| r.id() == &Id::String("c".into()) && code(&r) == -32600), "C14: a cancellation with an id was not answered with -32600");
            t.run();
            sym::check(!t.done(), "C14: a malformed cancellation had an effect");
            GATES[4].get().release();
            t.run();
            sym::check(t.done(), "C14: a malformed cancellation had an effect");
            sym::reach(3);
        }
    }
    let r = s.now(message("t/req", Some(json!(3)), Some(Id::Number(5))));
    sym::check(r == Some(Response::from_ok(Id::Number(5), json!([3, 9]))), "C14: the server is out of order after a malformed message");
    sym::reach(1);
}

/// C13: the answer to a method nobody knows.
fn unknown(name: &str, phase: usize) {
    let custom = ["t/req", "t/note", "t/talk", "t/ask", "t/asknote", "t/one", "t/hint", "t/many", "t/maybe", "t/any", "t/plain", "t/ping", "exit", "$/cancelRequest"];
    for k in ROWS.iter().map(|r| r.name).chain(custom) {
        sym::assume(k.len() != name.len() || k != name);
    }
    let mut s = mini();
    if phase > 0 {
        s.init(0);
    }
    if phase > 1 {
        s.shutdown();
    }
    let p = if sym::flip() { Some(json!(3)) } else { None };
    if sym::flip() {
        let id = any_id(false);
        let r = s.now(message(name, p, Some(id.clone())));
        match r {
            Some(r) => {
                let e = r.error();
                sym::check(r.id() == &id && code(&r) == -32601, "C13: an unknown request was not answered with -32601");
                sym::check(e.and_then(|e| e.data.as_ref()) == Some(&Value::from(name)), "C13: the error does not name the method");
                sym::reach(2);
            }
            None => sym::fail("C13: an unknown request was not answered"),
        }
    } else {
        sym::check(s.now(message(name, p, None)).is_none(), "C13: an unknown notification was answered");
        sym::reach(3);
    }
    sym::check(W.get().order.is_empty() && SHAPES.get().is_empty(), "C13: a handler ran for an unknown method");
    if phase == 0 {
        s.init(0);
    }
    W.get().slots[3].val = 9;
    let r = s.now(message("t/req", Some(json!(3)), Some(Id::Number(5))));
    if phase > 1 {
        sym::check(r.map_or(false, |r| code(&r) == -32600), "C13: an unknown method disturbs the server");
        sym::reach(4);
        return;
    }
    sym::check(r == Some(Response::from_ok(Id::Number(5), json!([3, 9]))), "C13: an unknown method disturbs the server");
    sym::reach(1);
}
/// A string of `n` arbitrary bytes that is well-formed.
pub fn utf8(n: usize) -> String {
    let mut v = vec![0; n];
    sym::bytes(&mut v);
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            sym::assume(false);
            String::new()
        }
    }
}
/// Every name of up to `n` bytes, alone or after the beginning of known names.
fn names(n: usize) {
    let s = utf8(sym::choose(n + 1));
    let phase = sym::choose(3);
    match sym::choose(4) {
        0 => unknown(&s, phase),
        1 => unknown(&format!("$/{s}"), phase),
        2 => unknown(&format!("t/{s}"), phase),
        _ => unknown(&format!("workspace/{s}"), phase),
    }
}
#[no_mangle]
pub extern "C" fn h_c13_a() {
    names(4)
}
#[no_mangle]
pub extern "C" fn h_c13_a_t() {
    names(8)
}
/// A known name with one byte changed, removed or added.
fn near(names: &[&str]) {
    let k = names[sym::choose(names.len())];
    let mut b = k.as_bytes().to_vec();
    match sym::choose(4) {
        0 => {
            let c = sym::u8();
            sym::assume(c < 0x80);
            b[sym::choose(k.len())] = c;
        }
        1 => {
            b.remove(sym::choose(k.len()));
        }
        2 => {
            let c = sym::u8();
            sym::assume(c < 0x80);
            b.insert(sym::pick(&[0, k.len() / 2, k.len()]), c);
        }
        _ => {
            b.truncate(sym::choose(k.len()));
        }
    }
    match std::str::from_utf8(&b) {
        Ok(s) => unknown(s, 1),
        Err(_) => sym::fail("not ASCII"),
    }
}
#[no_mangle]
pub extern "C" fn h_c13_b() {
    near(&["exit", "t/req", "shutdown", "$/cancelRequest", "initialize", "textDocument/hover"])
}
#[no_mangle]
pub extern "C" fn h_c13_b_t() {
    let mut names: Vec<&str> = ROWS.iter().map(|r| r.name).collect();
    names.extend(["exit", "$/cancelRequest", "t/note"]);
    near(&names)
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_c05_d", h_c05_d),
    ("h_c07_d", h_c07_d),
    ("h_c13_a", h_c13_a),
    ("h_c13_a_t", h_c13_a_t),
    ("h_c13_b", h_c13_b),
    ("h_c13_b_t", h_c13_b_t),
    ("h_c14_a", h_c14_a),
    ("h_c14_b", h_c14_b),
    ("h_c14_c", h_c14_c),
    ("h_c15_a", h_c15_a),
    ("h_c15_b", h_c15_b),
    ("h_c15_c", h_c15_c),
    ("h_c15_d", h_c15_d),
];
