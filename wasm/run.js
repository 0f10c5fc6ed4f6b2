// usage: node run.js MODULE.wasm INPUTS OUTPUTS
// Inputs are blocks of flags (4 bytes), length (4 bytes) and text; outputs of a kind (0: error,
// 1: text, 2: a trap), length and text.
'use strict';
const fs = require('fs');
const [, , wasm, inputs, outputs] = process.argv;
const module_ = new WebAssembly.Module(fs.readFileSync(wasm));
let x;
function start() {
	x = new WebAssembly.Instance(module_, {}).exports;
}
start();
const b = fs.readFileSync(inputs);
const out = [];
for (let at = 0; at < b.length;) {
	const flags = b.readUInt32LE(at);
	const n = b.readUInt32LE(at + 4);
	const text = b.subarray(at + 8, at + 8 + n);
	at += 8 + n;
	const head = Buffer.alloc(5);
	let body;
	try {
		const p = x.room(n);
		new Uint8Array(x.memory.buffer, p, n).set(text);
		const q = x.call(flags, p, n) >>> 0;
		const v = new DataView(x.memory.buffer, q, 5);
		const len = v.getUint32(1, true);
		head[0] = v.getUint8(0);
		body = Buffer.from(new Uint8Array(x.memory.buffer, q + 5, len));
		x.done(q, len);
	} catch (e) {
		head[0] = 2;
		body = Buffer.from(String(e));
		start();
	}
	head.writeUInt32LE(body.length, 1);
	out.push(head, body);
}
fs.writeFileSync(outputs, Buffer.concat(out));
