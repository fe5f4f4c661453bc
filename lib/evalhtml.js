// Evaluates the scripts of HTML logs: the logged data of each, numbers and objects marked; null for a broken document.
const fs = require("fs"), vm = require("vm");
const docs = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
function mark(v) {
    if (typeof v === "number") return {n: Object.is(v, -0) ? "-0" : String(v)};
    if (Array.isArray(v)) return v.map(mark);
    if (v && typeof v === "object") return {o: Object.keys(v).map(k => [k, mark(v[k])])};
    return v === undefined ? null : v;
}
function read(latin) {
    const text = Buffer.from(latin, "latin1").toString("utf8");
    const t = text.trim();
    if (!/^<html>/i.test(t) || !/<\/html>$/i.test(t) || t.split(/<html>/i).length !== 2 || t.split(/<\/body>/i).length !== 2) return null;
    const scripts = [];
    const re = /<script[^>]*>([\s\S]*?)<\/script>/gi;
    let m;
    while ((m = re.exec(t))) scripts.push(m[1]);
    if (t.split(/<script/i).length !== scripts.length + 1) return null;
    const els = {};
    const ctx = vm.createContext({document: {getElementById: id => els[id] || (els[id] = {innerHTML: "", value: "-1", selectedIndex: 0})}});
    try {
        for (const s of scripts) vm.runInContext(s, ctx, {timeout: 5000});
        const data = vm.runInContext("data", ctx);
        const shown = els.listDiv ? els.listDiv.innerHTML : "";
        return {data: mark(data), rows: shown.split("<tr").length - 2};
    } catch (e) { return null; }
}
process.stdout.write(JSON.stringify(docs.map(read)));
