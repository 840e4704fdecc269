// node ts_ast.js in.ts out.json [out.js] : erases types and dumps the syntax tree of what remains
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const src = fs.readFileSync(process.argv[2], "utf8");
const res = ts.transpileModule(src, { compilerOptions: { target: "ES2022", module: "ESNext", removeComments: true, useDefineForClassFields: true }, reportDiagnostics: true });
if (res.diagnostics.length) { console.error(res.diagnostics.map(d => ts.flattenDiagnosticMessageText(d.messageText, "\n")).join("\n")); process.exit(3); }
const sf = ts.createSourceFile("m.js", res.outputText, ts.ScriptTarget.ES2022, false, ts.ScriptKind.JS);
const SKIP = new Set(["parent", "pos", "end", "flags", "modifierFlagsCache", "transformFlags", "id", "symbol", "localSymbol", "locals", "nextContainer", "jsDoc", "emitNode", "original", "flowNode", "endFlowNode", "returnFlowNode", "hasTrailingComma", "jsDocCache", "facts", "autoGenerate", "escapedText"]);
function dump(n) {
  if (Array.isArray(n)) return n.map(dump);
  if (n && typeof n === "object" && typeof n.kind === "number") {
    const o = { k: ts.SyntaxKind[n.kind] };
    if (n.kind === ts.SyntaxKind.Identifier || n.kind === ts.SyntaxKind.PrivateIdentifier) { o.text = ts.idText(n); return o; }
    for (const f of Object.keys(n)) {
      if (SKIP.has(f)) continue;
      const v = n[f];
      if (f === "kind") continue;
      if (f === "operator") { o[f] = ts.tokenToString(v); continue; }
      if (v === undefined || v === null || typeof v === "function") continue;
      if (typeof v === "object") { if (Array.isArray(v) || typeof v.kind === "number") o[f] = dump(v); }
      else o[f] = v;
    }
    if (n.kind === ts.SyntaxKind.VariableDeclarationList) o.flavor = (n.flags & ts.NodeFlags.Const) ? "const" : (n.flags & ts.NodeFlags.Let) ? "let" : "var";
    o.line = sf.getLineAndCharacterOfPosition(n.pos < 0 ? 0 : n.pos).line + 1;
    if (n.operatorToken) o.op = ts.tokenToString(n.operatorToken.kind);
    return o;
  }
  return n;
}
fs.writeFileSync(process.argv[3], JSON.stringify(dump(sf.statements)));
if (process.argv[4]) fs.writeFileSync(process.argv[4], res.outputText);
