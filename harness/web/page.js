// Runs the page's own fetching code (network/js) against a scripted network.
// argv: file of cases, one JSON per line; prints one JSON per line.
const fs = require("fs");
let script = null, asked = null;
globalThis.fetch = async (url, options) => {
    const n = asked.length;
    asked.push({ url: String(url), method: (options && options.method) || "GET", headers: (options && options.headers) || {}, body: (options && options.body) || null });
    await null;
    const o = script[n];
    if (o === undefined) throw new Error("one try too many");
    if (o.error) throw new Error(o.error);
    return {
        ok: o.status < 400, status: o.status,
        json: async () => { await null; return JSON.parse(o.text); },
        text: async () => { await null; return o.text; },
    };
};
const v1 = require("/repo/network/js/graphql_v1_utils.js");
const berkeley = require("/repo/network/js/graphql_berkeley_utils.js");
const call = {
    block: (a) => v1.fetch_block_json_str(...a),
    latest: (a) => v1.query_latest_blocks_json_str(...a),
    best: (a) => berkeley.fetch_best_chain_json_str(...a),
    template: (a) => { const module = {}; new Function("module", a[0])(module); return JSON.stringify(module.exports[a[2]](eval("(" + a[1] + ")"))); },
};
(async () => {
    for (const line of fs.readFileSync(process.argv[2], "utf8").split("\n")) {
        if (!line) continue;
        const c = JSON.parse(line);
        script = c.script; asked = [];
        let out;
        try { out = { ok: true, text: await call[c.what](c.args) }; }
        catch (e) { out = { ok: false, error: String(e && e.message) }; }
        console.log(JSON.stringify({ ...out, asked }));
    }
})();
