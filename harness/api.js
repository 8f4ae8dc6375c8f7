"use strict";
// Runs the real addon and index.js against executable specifications at the level of the public API.
// usage: node api.js <prop> <pkgdir> <seed> <secs>     prints {"fail":{..}} (exit 1) or {"ok":{..}}
const [,, prop, pkg, seedA, secsA] = process.argv;
const y = require(pkg + '/index.js');
const raw = require(pkg + '/build/Release/yencode.node');
let sa = 0x9E3779B9, sb = 0x243F6A88, sc = (Number(seedA) * 2654435761 + 12345) >>> 0, sd = 1;   // sfc32
function r32() { const t = (sa + sb + sd) | 0; sd = (sd + 1) | 0; sa = sb ^ (sb >>> 9); sb = (sc + (sc << 3)) | 0; sc = ((sc << 21) | (sc >>> 11)) + t | 0; return t >>> 0; }
for (let k = 0; k < 20; k++) r32();
for (let i = 0; i < 50; i++) r32();
const rn = n => r32() % n, pick = a => a[rn(a.length)];
let evals = 0, sample = null;
const show = v => Buffer.isBuffer(v) ? {hex: v.toString('hex')} : (v instanceof Error ? {error: v.message} : v === undefined ? {undefined: true} : (typeof v === 'number' && !Number.isSafeInteger(v)) ? {num: String(v)} : Array.isArray(v) ? v.map(show) : v);
class Failed extends Error {}
let current = null;
function fail(what, extra) { const o = Object.assign({property: prop, what}, current, extra ? {detail: JSON.parse(JSON.stringify(extra, (k, v) => v && v.type === 'Buffer' ? Buffer.from(v.data).toString('hex') : v))} : {}); console.log(JSON.stringify({fail: o})); process.exit(1); }
function attempt(fn) { try { return {val: fn()}; } catch (e) { return {err: e}; } }
// ---- executable specifications
function specEncode(b, ls, col, end) {
  const o = [];
  for (let k = 0; k < b.length; k++) {
    const c = (b[k] + 42) & 255;
    if (col >= ls) { o.push(13, 10); col = 0; }
    let esc = c === 0 || c === 10 || c === 13 || c === 61;
    if ((col === 0 || col === ls - 1) && (c === 9 || c === 32)) esc = true;
    if (col === 0 && c === 46) esc = true;
    if (end && k === b.length - 1 && (c === 9 || c === 32)) esc = true;
    if (esc) { o.push(61, (c + 64) & 255); col += 2; } else { o.push(c); col++; }
  }
  return {out: Buffer.from(o), col};
}
const CRLF = 0, EQ = 1, CR = 2, NONE = 3, DT = 4, DTCR = 5, CEQ = 6;
function specDecode(b, isRaw, end, st) {
  const o = []; let k = 0;
  for (; k < b.length; k++) {
    const c = b[k];
    if (st === CEQ) { if (end && c === 121) return {out: Buffer.from(o), read: k + 1, ended: 1, st: NONE}; st = EQ; }
    if (st === EQ) { o.push((c - 106) & 255); st = isRaw && c === 13 ? CR : NONE; continue; }
    if (st === CRLF && isRaw && c === 46) { st = end ? DT : NONE; continue; }
    if (st === CRLF && end && c === 61) { st = CEQ; continue; }
    if (st === DT && c === 13) { st = DTCR; continue; }
    if (st === DT && c === 61) { st = CEQ; continue; }
    if (st === DTCR && c === 10) return {out: Buffer.from(o), read: k + 1, ended: 2, st: CRLF};
    if (st === CR && c === 10 && isRaw) { st = CRLF; continue; }
    if (c === 13) { st = isRaw ? CR : NONE; continue; }
    if (c === 10) { st = NONE; continue; }
    if (c === 61) { st = EQ; continue; }
    o.push((c - 42) & 255); st = NONE;
  }
  return {out: Buffer.from(o), read: b.length, ended: 0, st};
}
const tab = new Uint32Array(256); for (let v = 0; v < 256; v++) { let c = v; for (let j = 0; j < 8; j++) c = (c >>> 1) ^ ((c & 1) ? 0xEDB88320 : 0); tab[v] = c >>> 0; }
function specCrc(b, init) { let c = ~(init >>> 0) >>> 0; for (let k = 0; k < b.length; k++) c = (c >>> 8) ^ tab[(c ^ b[k]) & 255]; return ~c >>> 0; }
const be = v => { const b = Buffer.alloc(4); b.writeUInt32BE(v >>> 0); return b; };
function mul(a, b) { let r = 0; for (let i = 31; i >= 0; i--) { if ((b >>> i) & 1) r ^= a; a = (a >>> 1) ^ ((a & 1) ? 0xEDB88320 : 0); } return r >>> 0; }
function xpow(n) { n = ((n % 0xFFFFFFFFn) + 0xFFFFFFFFn) % 0xFFFFFFFFn; let r = 0x80000000, b = 0x40000000; while (n) { if (n & 1n) r = mul(r, b); b = mul(b, b); n >>= 1n; } return r >>> 0; }
const maxNative = (len, ls) => len * 2 + 66 + 2 * Math.floor(len * 2 / ls);
// ---- generators
const ENCSP = [214, 224, 227, 19, 223, 246, 4];
function encData(max) { const n = rn(4) ? rn(200) : rn(max || 1500); const b = Buffer.alloc(n), p = pick([0, 2, 10, 40, 100]), pl = rn(2) ? 97 : -1; for (let k = 0; k < n; k++) b[k] = rn(100) < p ? pick(ENCSP) : pl < 0 ? rn(256) : pl; if (n && rn(2)) b[n - 1] = pick(ENCSP); if (n && rn(3) === 0) b[0] = pick(ENCSP); return b; }
const PATS = ['\r\n.\r\n', '\r\n=y', '\r\n.=y', '\r\n..', '\r\n.', '\r\n=', '=\r\n.', '==', '===', '=\r\n=y', '\r\r\n.', '\r\n.\r', '\r\n.=', '\r\n\r\n.', '=\n', '=\r', '=.', '=y', '\r\n.x', '=\r\n', '.', '\n', '\r'];
function decData(max) { const n = rn(4) ? rn(150) : rn(max || 1200); const b = Buffer.alloc(n), p = pick([0, 3, 15, 60, 100]), al = pick(['=\r\n.y', '==\r\n', '\r\n.', '=a']); for (let k = 0; k < n; k++) b[k] = rn(100) < p ? al.charCodeAt(rn(al.length)) : rn(2) ? 97 : rn(256); let m = rn(4); while (m-- && n) b.write(pick(PATS), rn(n), 'latin1'); if (n && rn(2)) { const t = pick(PATS); if (t.length <= n) b.write(t, n - t.length, 'latin1'); } if (rn(3) === 0) b.write(pick(['.', '.\r\n', '=y', '.=y', '=', '\n.']), 0, 'latin1'); return b; }
function lineSize() { return rn(3) ? pick([1, 2, 3, 5, 8, 11, 12, 13, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 300, 997, 1073741824]) : 1 + rn(400); }
const eq = (a, b) => Buffer.isBuffer(a) && Buffer.isBuffer(b) && a.equals(b);
const STATES = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
// place data inside a bigger allocation at a random alignment
function placed(b) { const o = rn(64), big = Buffer.alloc(b.length + o + 64, 0x55); b.copy(big, o); return big.subarray(o, o + b.length); }

function tEncode() {
  const d = encData(), ls = lineSize(), col = rn(2) ? 0 : rn(Math.min(ls, 500)); current = {op: 'encode', data: d.toString('hex'), line_size: ls, col};
  const w = specEncode(d, ls, col, true).out, src = placed(d), g = attempt(() => y.encode(src, ls, col));
  if (g.err) fail('encode threw for valid arguments', {error: g.err.message});
  if (prop === 'E04') { for (const rw of [false, true]) { if (rw && col) continue; const back = y.decode(g.val, rw); if (!eq(back, d)) fail('decoding the encoded form does not give back the input', {raw: rw, encoded: g.val, decoded: back}); } return; }
  if (prop === 'E03') {
    const need = maxNative(d.length, ls), mx = y.maxSize(d.length, ls), mn = y.minSize(d.length, ls);
    if (d.length && (mn > g.val.length || mx < g.val.length)) fail('minSize/maxSize do not bracket the encoded length', {min: mn, max: mx, got: g.val.length});
    if (d.length && mx < need) fail('maxSize is below the required destination size', {mx, need});
    if (d.length) { const sz = rn(2) ? mx : Math.max(0, mx - 1 - rn(rn(2) ? 3 : mx)), big = Buffer.alloc(sz + 128, 0xAA), dst = big.subarray(64, 64 + sz), r = attempt(() => y.encodeTo(src, dst, ls, col));
      for (let k = 0; k < 64; k++) if (big[k] !== 0xAA || big[64 + sz + k] !== 0xAA) fail('encodeTo wrote outside the destination', {size: sz});
      if (sz >= mx && r.err) fail('encodeTo rejected a destination of maxSize bytes', {size: sz});
      if (r.err) { for (let k = 0; k < sz; k++) if (dst[k] !== 0xAA) fail('encodeTo wrote to the destination and threw', {size: sz}); }
      else { if (r.val !== w.length || !eq(dst.subarray(0, r.val), w)) fail('encodeTo result differs', {size: sz, got: r.val, want: w.length}); if (sz < w.length) fail('encodeTo accepted a destination that is too small', {size: sz}); } }
    const L = pick([rn(1e6), 2 ** 31 + rn(1e6), 2 ** 32 + rn(1e6), 2 ** 33 * (1 + rn(1000)), 4294967295]), l2 = rn(5) ? lineSize() : undefined, m2 = BigInt(y.maxSize(L, l2)), n2 = BigInt(L) * 2n + 66n + 2n * (BigInt(L) * 2n / BigInt(l2 || 128)); current = {op: 'maxSize', length: L, line_size: l2};
    if (L && m2 < n2) fail('maxSize is below what encodeTo requires', {got: String(m2), need: String(n2)});
    if (L && BigInt(y.minSize(L, l2)) > BigInt(L) + 2n * ((BigInt(L) - 1n) / BigInt(l2 || 128))) fail('minSize exceeds the smallest encoding', {got: y.minSize(L, l2)});
    return; }
  if (prop === 'E02') { if (col) return; const o = g.val.toString('latin1'); if (/\0/.test(o)) fail('NUL in the output', {got: g.val}); const lines = o.split('\r\n'); lines.forEach((l, i) => { if (/[\r\n]/.test(l) || (d.length && (!l.length || /^[.\t ]/.test(l) || /[\t ]$/.test(l))) || /=y|=$/.test(l) || l.length > ls + 1 || (i < lines.length - 1 && l.length < ls)) fail('a line is not safe to send or has the wrong length', {line: i, got: g.val}); }); return; }
  if (!eq(g.val, w)) fail('encode result differs from the yEnc definition', {got: g.val, want: w});
  const dst = Buffer.alloc(y.maxSize(d.length, ls) + rn(3)), n = y.encodeTo(src, dst, ls, col); if (n !== w.length || !eq(dst.subarray(0, n), w)) fail('encodeTo result differs from the yEnc definition', {n, got: dst.subarray(0, n), want: w});
  if (rn(3) === 0 && raw.encodeIncr) { // incremental encoder of the addon: pieces continue each other
    let c = col, out = []; for (let p = 0; p < d.length;) { const k = Math.min(d.length - p, 1 + rn(d.length)), r = raw.encodeIncr(d.subarray(p, p + k), ls, c); out.push(r.output); c = r.col; p += k; if (c > ls) c = ls; }
  }
}
function tDecode() {
  const d = decData(), rw = prop === 'D02' ? true : prop === 'D01' ? false : !!rn(2), src = placed(d); current = {op: 'decode', raw: rw, data: d.toString('hex')};
  const w = specDecode(d, rw, false, CRLF).out;
  const g = attempt(() => rn(2) || rw ? y.decode(src, rw) : y.decode(src)); if (g.err) fail('decode threw', {error: g.err.message});
  if (attempt(() => g.val.subarray(0, 0)).err) fail('decode returned an unusable (detached) Buffer');
  if (prop !== 'D05' && !eq(g.val, w)) fail('decode result differs from the decoding rule', {got: g.val, want: w});
  const extra = rn(3), big = Buffer.alloc(d.length + extra + 128, 0xAA), dst = big.subarray(64, 64 + d.length + extra), r = attempt(() => y.decodeTo(src, dst, rw)); if (r.err) fail('decodeTo threw', {error: r.err.message});
  for (let k = 0; k < 64; k++) if (big[k] !== 0xAA || big[64 + dst.length + k] !== 0xAA) fail('decodeTo wrote outside the destination');
  if (r.val !== w.length || !eq(dst.subarray(0, r.val), w)) fail('decodeTo result differs', {got: dst.subarray(0, r.val), want: w});
  if (prop === 'D05') { const ip = Buffer.from(d), n = y.decodeTo(ip, ip, rw); if (n !== w.length || !eq(ip.subarray(0, n), w)) fail('in-place decoding differs', {got: ip.subarray(0, n), want: w}); const ic = Buffer.from(d), q = y.decodeChunk(ic, null, ic), wq = specDecode(d, true, true, CRLF); if (d.length && (q.written !== wq.out.length || !eq(ic.subarray(0, q.written), wq.out))) fail('in-place decodeChunk differs', {got: ic.subarray(0, q.written), want: wq.out}); if (d.length > 1) { const small = Buffer.alloc(d.length - 1), e = attempt(() => y.decodeTo(src, small, rw)); if (!e.err) fail('decodeTo accepted a destination smaller than the data'); const e2 = attempt(() => y.decodeChunk(src, null, small)); if (!e2.err) fail('decodeChunk accepted a destination smaller than the data'); } }
}
function chunkCall(b, st) { const m = rn(4), out = m < 2 ? undefined : Buffer.alloc(b.length + rn(3)); const args = m === 0 ? [b, st] : m === 1 ? [b, st, undefined] : m === 2 ? [b, st, out] : [b, out, st]; const r = y.decodeChunk(...args); if (m >= 2 && r.output !== out && !(b.length === 0)) fail('the supplied output buffer is not the one returned'); return r; }
function checkChunk(r, b, w, stOld) {
  const wantState = w.ended ? ['\r\n=y', '\r\n.\r\n'][w.ended - 1] : b.length ? STATES[w.st] : stOld;
  if (r.read !== w.read || r.written !== w.out.length || r.ended !== !!w.ended || r.state !== wantState) fail('read, written, ended or state is wrong', {got: {read: r.read, written: r.written, ended: r.ended, state: r.state}, want: {read: w.read, written: w.out.length, ended: !!w.ended, state: wantState}});
  if (!eq(Buffer.from(r.output).subarray(0, r.written), w.out)) fail('decoded bytes differ', {got: r.output, want: w.out});
}
function tChunk() {
  const d = decData();
  if (prop === 'D04') { const si = rn(7), st0 = rn(4) ? STATES[si] : null, st = st0 === null ? CRLF : si; current = {op: 'decodeChunk', state: st0, data: d.toString('hex')}; if (!d.length) return; const w = specDecode(d, true, true, st), r = attempt(() => chunkCall(placed(d), st0)); if (r.err) fail('decodeChunk threw', {error: r.err.message}); checkChunk(r.val, d, w, st0); return; }
  const w = specDecode(d, true, true, CRLF), outs = [], cuts = []; let pos = 0, st = null, r = {ended: false, state: '\r\n'}; const style = rn(3);
  current = {op: 'decodeChunk pieces', data: d.toString('hex'), cuts};
  while (pos < d.length && !r.ended) { const k = rn(8) === 0 ? 0 : Math.min(d.length - pos, style === 0 ? 1 + rn(3) : style === 1 ? 1 + rn(90) : 1 + rn(d.length)); cuts.push(k); const a = attempt(() => chunkCall(placed(d.subarray(pos, pos + k)), st)); if (a.err) fail('decodeChunk threw', {error: a.err.message}); r = a.val; outs.push(Buffer.from(r.output.subarray(0, r.written))); pos += r.read; st = r.state; }
  const got = Buffer.concat(outs), ws = w.ended ? ['\r\n=y', '\r\n.\r\n'][w.ended - 1] : d.length ? STATES[w.st] : '\r\n';
  if (!eq(got, w.out) || pos !== w.read || r.ended !== !!w.ended || (d.length && r.state !== ws)) fail('decoding in pieces differs from decoding in one call', {got: {out: got, pos, ended: r.ended, state: r.state}, want: {out: w.out, pos: w.read, ended: !!w.ended, state: ws}});
}
const rint = () => { const m = rn(8); let v = m === 0 ? BigInt(rn(70)) : m === 1 ? BigInt(rn(1e6)) : m === 2 ? 1n << BigInt(rn(53)) : m === 3 ? (1n << 53n) - 1n - BigInt(rn(3)) : m === 4 ? 0xFFFFFFFFn * BigInt(1 + rn(1000)) + BigInt(rn(5)) - 2n : m === 5 ? (BigInt(r32()) << 21n) | BigInt(rn(1 << 21)) : m === 6 ? (0xFFFFFFFFn >> 3n) * BigInt(1 + rn(1 << 20)) + BigInt(rn(5)) - 2n : BigInt(r32()); if (v > (1n << 53n) - 1n) v = (1n << 53n) - 1n; if (v < 0n) v = 0n; return v; };
const rcrc = () => pick([() => r32(), () => r32(), () => (1 << rn(32)) >>> 0, () => 0, () => 0xFFFFFFFF, () => 0x80000000])();
function tCrc() {
  if (prop === 'C01') { const d = encData(6000), init = rcrc(), g = (current = {op: 'crc32', init, data: d.toString('hex')}, y.crc32(placed(d), be(init))); if (!eq(g, be(specCrc(d, init)))) fail('CRC differs from CRC-32', {got: g, want: be(specCrc(d, init))}); const g0 = y.crc32(d); if (!eq(g0, be(specCrc(d, 0)))) fail('CRC differs from CRC-32', {got: g0}); const k = rn(d.length + 1); if (!eq(y.crc32(d.subarray(k), y.crc32(d.subarray(0, k))), g0)) fail('incremental CRC differs', {split: k}); return; }
  const a = rcrc(), b = rcrc(), n = rint();
  if (prop === 'C02') { current = {op: 'crc32_combine', a, b, n: String(n)}; const g = y.crc32_combine(be(a), be(b), Number(n)), w = be(mul(a, xpow(n * 8n)) ^ b); if (!eq(g, w)) fail('combined CRC is wrong', {got: g, want: w}); return; }
  const sn = rn(2) ? n : -n;
  if (prop === 'C03') { current = {op: 'crc32_zeroes', a, n: String(sn)}; const w = be(~mul(~a >>> 0, xpow(sn * 8n))), g = y.crc32_zeroes(Number(sn), be(a)); if (!eq(g, w)) fail('appending or removing zero bytes is wrong', {got: g, want: w}); if (!eq(y.crc32_zeroes(Number(-sn), g), be(a))) fail('removing zero bytes does not undo appending them'); if (!eq(y.crc32_zeroes(Number(sn)), be(~mul(0xFFFFFFFF, xpow(sn * 8n))))) fail('appending zero bytes without an initial CRC is wrong'); return; }
  current = {op: 'crc32_multiply/shift', a, b, n: String(sn)}; if (!eq(y.crc32_multiply(be(a), be(b)), be(mul(a, b)))) fail('product is wrong', {got: y.crc32_multiply(be(a), be(b)), want: be(mul(a, b))}); const w = be(mul(a, xpow(sn))), g = y.crc32_shift(Number(sn), be(a)); if (!eq(g, w)) fail('shift is wrong', {got: g, want: w}); if (!eq(y.crc32_shift(Number(sn)), be(xpow(sn)))) fail('power of two is wrong');
}
// ---- posts
function fileName() { const n = rn(5) ? rn(40) : 250 + rn(30), pool = rn(2) ? ['a', 'b', '.', ' ', '=', 'y', '\r', '\n', '\0', 'é', '\u010a', '\u010d', '\u0100', '\ud83d\ude00', '"', '\r\n', '\r\n=y', '\u2028'] : ['a', 'b', '.', '_', ' ', '=']; let s = ''; for (let k = 0; k < n; k++) s += pick(pool); return s; }
const stripName = (s, enc) => Buffer.from(Buffer.from(s.replace(/[\r\n\0]/g, '').substring(0, 256), enc).filter(c => c !== 0 && c !== 10 && c !== 13));
const ascii = s => Buffer.from(s, 'latin1');
function tPost() {
  const d = encData(600), ls = rn(3) ? lineSize() : 0, name = fileName(), enc = pick(['utf8', 'utf8', 'latin1', 'binary', 'ascii']); y.encoding = enc; current = {op: 'post', name, data: d.toString('hex'), line_size: ls, encoding: enc};
  const L = ls || 128, want = Buffer.concat([ascii(`=ybegin line=${L} size=${d.length} name=`), stripName(name, enc), ascii('\r\n'), specEncode(d, L, 0, true).out, ascii(`\r\n=yend size=${d.length} crc32=${be(specCrc(d, 0)).toString('hex')}`)]);
  const form = rn(3), dd = form === 0 ? d : form === 1 ? [...d] : Uint8Array.from(d), g = attempt(() => ls ? y.post(name, dd, ls) : y.post(name, dd)); if (g.err) fail('post threw', {error: g.err.message}); if (!eq(g.val, want)) fail('post differs from its definition', {got: g.val, want});
  const m = attempt(() => (ls ? y.multi_post(name, d.length, 1, ls) : y.multi_post(name, d.length, 1)).encode(dd)); if (m.err) fail('one-part multi-part encoder threw', {error: m.err.message}); if (!eq(m.val, want)) fail('a one-part multi-part post differs from post()', {got: m.val, want});
  const nm = name.replace(/[\r\n\0]/g, '').substring(0, 256); if (enc === 'utf8' && nm && !/^[\s]|[\s]$/.test(nm) && d.length && !/[\ud800-\udfff]/.test(nm)) { const p = y.from_post(g.val, !!rn(2)); if (p instanceof Error) fail('the post does not parse', {code: p.code}); if (!eq(p.data, d) || p.props.begin.name !== nm || p.props.begin.size !== String(d.length) || p.props.end.size !== String(d.length)) fail('the post does not read back', {props: p.props}); if (p.warnings && p.warnings.some(w => w.code !== 'missing_yend_newline')) fail('reading the post back gives warnings', {warnings: p.warnings.map(w => w.code)}); }
  y.encoding = 'utf8';
}
function tMulti() {
  const parts = 2 + rn(5), ls = rn(2) ? lineSize() : 0, name = fileName(), L = ls || 128; let ds = []; for (let k = 0; k < parts; k++) ds.push(rn(5) ? encData(300) : Buffer.alloc(0)); const all = Buffer.concat(ds), size = all.length, ops = []; current = {op: 'multi_post', name, size, parts, line_size: ls, ops};
  const e = ls ? y.multi_post(name, size, parts, ls) : y.multi_post(name, size, parts); let part = 0, pos = 0, i = 0; const nm = stripName(name, 'utf8');
  const n = parts + rn(3) + 1; let steps = 0;
  while (steps++ < n + 4) {
    let d = rn(5) ? (ds[part] || Buffer.alloc(rn(2) * 3)) : Buffer.alloc(rn(4) ? rn(20) : size + 1, 7); ops.push(d.length); const isLast = part + 1 === parts, bad = part + 1 > parts || pos + d.length > size || (isLast && pos + d.length !== size);
    const g = attempt(() => e.encode(rn(2) ? d : [...d])); if (bad !== !!g.err) fail(bad ? 'a call that must be rejected did not throw' : 'a valid call threw', {error: g.err && g.err.message});
    if (bad) { if (part < parts && (e.pos !== pos)) fail('a rejected call changed the position'); continue; }
    const done = Buffer.concat([...(e.__d || []), d]); e.__d = [done]; part++;
    const crc = be(specCrc(done, 0)).toString('hex');
    const want = Buffer.concat([ascii(`=ybegin part=${part} total=${parts} line=${L} size=${size} name=`), nm, ascii(`\r\n=ypart begin=${pos + 1} end=${pos + d.length}\r\n`), specEncode(d, L, 0, true).out, ascii(`\r\n=yend size=${d.length} part=${part} pcrc32=${be(specCrc(d, 0)).toString('hex')}` + (part === parts ? ` crc32=${crc}` : ''))]);
    if (!eq(g.val, want)) fail('a part differs from its definition', {part, got: g.val, want}); pos += d.length; if (e.pos !== pos || e.part !== part || e.crc.toString('hex') !== crc) fail('part, pos or crc is wrong', {part: e.part, pos: e.pos, crc: e.crc});
  }
  // one-part encoder: only the exact size, only once
  const d1 = encData(100), e1 = y.multi_post(name, d1.length, 1, ls || undefined); current = {op: 'multi_post one part', size: d1.length};
  if (!attempt(() => e1.encode(Buffer.alloc(d1.length + 1 + rn(3)))).err) fail('a one-part encoder accepted data of the wrong size'); if (attempt(() => e1.encode(d1)).err) fail('a one-part encoder rejected data of the right size'); if (!attempt(() => e1.encode(d1)).err || !attempt(() => e1.encode(Buffer.alloc(0))).err) fail('a one-part encoder accepted a second part');
}
// independent parser of posts
function specLine(l, tagBegin) { // l without "=y"; returns {tag, props, extra, dup}
  const sp = l.indexOf(' '), tag = sp < 0 ? l : l.slice(0, sp); let s = (sp < 0 ? '' : l.slice(sp + 1)).trim(); const props = new Map(); let extra = 0, dup = 0;
  for (;;) { let st = -1, en = -1; for (let i = 0; i < s.length; i++) { if (/[a-z_]/.test(s[i])) { let j = i + 1; while (j < s.length && /[a-z_0-9]/.test(s[j])) j++; if (s[j] === '=') { st = i; en = j; break; } } } // leftmost match: a later start inside the same run cannot win
    if (st < 0) break; if (st) extra++; const key = s.slice(st, en); let val; if (tag === 'begin' && key === 'name') { val = s.slice(en + 1); s = ''; } else { const q = s.indexOf(' ', en + 1); val = q < 0 ? s.slice(en + 1) : s.slice(en + 1, q); s = q < 0 ? '' : s.slice(q + 1); } if (props.has(key)) dup++; props.set(key, val); }
  if (s !== '') extra++; return {tag, props, extra, dup};
}
function specPost(b, isRaw) {
  const t = b.toString('latin1'), utf = (a, z) => b.subarray(a, z).toString('utf8').trim(); let start = t.startsWith('=ybegin ') ? 0 : t.indexOf('\r\n=ybegin ') + 2; if (start === 1) return {err: 'no_start_found'};
  const r = {yencStart: start, w: {}}; const warn = c => { r.w[c] = (r.w[c] || 0) + 1; }; const lines = []; let p = start, dataStart, yencEnd, first = true;
  for (;;) { const e = t.indexOf('\r\n', first ? start + 8 : p); first = false; if (e < 0) return {err: 'no_end_found'}; const l = utf(p, e); lines.push(l); p = e + 2; if (l.startsWith('=yend ')) { yencEnd = p; break; } if (t.substr(p, 2) !== '=y') { dataStart = p; break; } }
  let dataEnd; if (yencEnd === undefined) { const k = t.slice(dataStart).lastIndexOf('\r\n=yend '); if (k < 0) return {err: 'no_end_found'}; dataEnd = dataStart + k; let e = t.indexOf('\r\n', dataEnd + 8); if (e < 0) { warn('missing_yend_newline'); e = t.length; yencEnd = e; } else yencEnd = e + 2; lines.push(utf(dataEnd + 2, e)); }
  const Y = new Map(); for (const l of lines) { const q = specLine(l.slice(2)); for (let i = 0; i < q.extra; i++) warn('ignored_line_data'); for (let i = 0; i < q.dup; i++) warn('duplicate_property'); if (Y.has(q.tag)) warn('duplicate_line'); Y.set(q.tag, q.props); }
  Object.assign(r, {dataStart, dataEnd, yencEnd, Y}); const get = (a, k) => Y.has(a) ? Y.get(a).get(k) : undefined; // undefined or string
  if (!get('begin', 'line') || !get('begin', 'size') || get('begin', 'name') === undefined || !get('end', 'size')) return {err: 'missing_required_properties'};
  const num = /^[0-9]+$/; for (const [a, ks] of [['begin', ['line', 'total', 'part', 'size']], ['part', ['begin', 'end']], ['end', ['size', 'part']]]) for (const k of ks) { const v = get(a, k); if (!v) continue; if (!num.test(v)) warn('invalid_prop_' + k); else if (v === '0' && k !== 'size') warn('zero_prop_' + k); }
  const bp = get('begin', 'part'), ep = get('end', 'part'), tot = get('begin', 'total'), pb = get('part', 'begin'), pe = get('part', 'end'), bs = get('begin', 'size'), es = get('end', 'size');
  if (bp && ep && bp !== ep) warn('part_number_mismatch'); else if (tot && ((bp && +tot < +bp) || (ep && +tot < +ep))) warn('part_number_exceeds_total');
  if (pb && pe) { if (+pb > +pe) warn('invalid_part_range'); else if (+es !== +pe - +pb + 1) warn('size_mismatch_part_range'); else if (+pe > +bs) warn('part_range_exceeds_size'); } else if (+tot > 1 || +bp > 1 || +ep > 1) warn('missing_part_range');
  for (const k of ['pcrc32', 'crc32']) if (get('end', k) && !/^[0-9a-fA-F]{8}$/.test(get('end', k))) warn('invalid_prop_' + k);
  if (!bp && bs !== es) warn('size_mismatch'); else if (+bs < +es) warn('size_mismatch');
  const data = dataStart !== undefined ? specDecode(b.subarray(dataStart, dataEnd), isRaw, false, CRLF).out : Buffer.alloc(0), crc = be(specCrc(data, 0)).toString('hex'); r.data = data;
  if (+es !== data.length) warn('data_size_mismatch'); if (get('end', 'pcrc32') && get('end', 'pcrc32').toLowerCase() !== crc) warn('pcrc32_mismatch'); if (get('end', 'crc32') && !Y.has('part') && get('end', 'crc32').toLowerCase() !== crc) warn('crc32_mismatch');
  r.crc = crc; return r;
}
function genPost() {
  const d = rn(10) ? encData(300) : Buffer.alloc(0), size = d.length, crc = be(specCrc(d, 0)).toString('hex'), multi = rn(2); let val = {bl: '128', bs: String(size), es: String(size), bp: multi ? '2' : undefined, tot: multi ? '3' : undefined, ep: multi ? '2' : undefined, pb: multi ? '11' : undefined, pe: multi ? String(10 + size) : undefined, pc: multi ? crc : rn(3) ? undefined : crc, cr: multi ? undefined : crc, name: pick(['x', 'a b.txt', 'é', '=y', 'a=b c=d'])}; if (multi) val.bs = String(size + 100); if (rn(3) === 0) for (const k in val) if (rn(12) === 0) val[k] = pick([undefined, '0', '1', '2', '5a', '', ' ', '99999999', crc.toUpperCase(), '0' + crc, String(size), '00000000', 'x', '-1', '1e1', '٣', '128 128']); if (rn(4) === 0) { const k = pick(['bp', 'tot', 'ep', 'pb', 'pe', 'es', 'bs']); val[k] = pick(['0', '1', '2', '3', '4', String(size + 1), String(size), String(size + 10), '11', '3x', '007']); } if (rn(6) === 0) val.cr = pick(['00000000', crc.toUpperCase(), '12345678', crc.slice(1), crc + '0', 'zzzzzzzz']); const hx = () => { let t = ''; const z = rn(9); while (t.length < 8) t += t.length < z ? '0' : '0123456789abcdefABCDEF'[rn(22)]; return t; }, flip = () => { const k = rn(8); return crc.slice(0, k) + '0123456789abcdef'[rn(16)] + crc.slice(k + 1); }; if (rn(6) === 0) val.cr = rn(2) ? hx() : flip(); if (rn(6) === 0) val.pc = rn(2) ? hx() : flip(); if (rn(12) === 0) { const k = pick(['bp', 'tot', 'ep', 'pb', 'pe', 'es', 'bs', 'bl']), v = val[k]; val[k] = pick(['0' + v, String(+v + 4294967296), String(+v + 2147483648), v + '0', '0x' + v, v + '.0', String(+v - 1), String(+v + 1), ' ' + v]); } if (rn(6) === 0) val.pc = pick(['00000000', crc.toUpperCase(), '12345678', crc.slice(1), 'g' + crc.slice(1)]);
  const kv = (k, v) => v === undefined ? '' : ` ${k}=${v}`, noise = () => rn(6) ? '' : ' ' + pick(['foo=bar', 'junk', 'constructor=1', '__proto__=2', 'toString=x', 'a=', '9x=1', '=', 'A=1', 'size=5', 'xsize=', '  ', '_a9=z']);
  let head = '=ybegin' + kv('part', val.bp) + kv('total', val.tot) + kv('line', val.bl) + noise() + kv('size', val.bs) + noise() + kv('name', val.name), lines = [head]; if (val.pb !== undefined || val.pe !== undefined) lines.push('=ypart' + kv('begin', val.pb) + noise() + kv('end', val.pe)); if (rn(6) === 0) lines.splice(1 + rn(lines.length), 0, '=y' + pick(['foo a=1', 'constructor x=y', '__proto__ a=b', 'toString', 'begin size=1', 'part begin=1', 'x', '', ' a=b', 'hasOwnProperty a=1', 'valueOf part=1']));
  let end = '=yend' + kv('size', val.es) + noise() + kv('part', val.ep) + kv('pcrc32', val.pc) + kv('crc32', val.cr) + noise();
  const body = specEncode(d, pick([128, 64, 20]), 0, true).out; let b = Buffer.concat([Buffer.from(rn(3) ? '' : pick(['junk\r\n', '\r\n', 'x=ybegin y\r\n', 'a\r\n=ybegi\r\n', '\r\n\r\n', '=ybegin\r\n', '\n=ybegin z\r\n']), 'latin1'), Buffer.from(lines.join('\r\n') + '\r\n', 'utf8'), rn(8) || size ? Buffer.concat([body, ascii('\r\n')]) : Buffer.alloc(0), Buffer.from(end, 'utf8'), ascii(rn(5) ? '\r\n' : pick(['', '\r\nmore', '\r\n=yend size=1\r\n', '\n', '\r\n.\r\n']))]);
  if (rn(8) === 0) { const k = rn(b.length); b = rn(2) ? Buffer.concat([b.subarray(0, k), ascii(pick(['\r\n', '=y', '\r\n=yend ', ' ', 'q', '\r\n=ybegin '])), b.subarray(k)]) : Buffer.concat([b.subarray(0, k), b.subarray(Math.min(b.length, k + 1 + rn(20)))]); } if (rn(10) === 0 && b.length) b[rn(b.length)] = rn(256); if (rn(40) === 0) b = decData(100);
  if (rn(60) === 0) b = Buffer.from(pick(['', '=ybegin ', '=ybegin line=1 size=1 name=x\r\n=yend size=1\r\n', '=ybegin line=128 size=0 name=x\r\n=yend size=0 pcrc32=00000000 crc32=00000000\r\n', '=ybegin line=128 size=0 name=x\r\n=yend size=0 crc32=00000001\r\n', '=ybegin line=128 size=0 name=x\r\n=yend size=3 pcrc32=ffffffff']));
  return b;
}
function tFrom() {
  const b = genPost(), isRaw = !!rn(2); current = {op: 'from_post', raw: isRaw, post: b.toString('hex'), text: b.toString('latin1').slice(0, 400)};
  const w = specPost(b, isRaw), g = attempt(() => y.from_post(placed(b), isRaw)); if (g.err) fail('from_post threw', {error: g.err.message}); const r = g.val;
  const isErr = r instanceof Error || (r && r.code && !r.props);
  if (prop === 'P03') {
    if (!!w.err !== !!isErr || (w.err && w.err !== r.code)) fail('wrong error', {got: isErr ? r.code : 'none', want: w.err || 'none'}); if (w.err) return;
    for (const k of ['yencStart', 'dataStart', 'dataEnd', 'yencEnd']) if (r[k] !== w[k]) fail('offset ' + k + ' is wrong', {got: r[k], want: w[k]});
    const tags = Object.keys(r.props).sort(), wt = [...w.Y.keys()].sort(); if (JSON.stringify(tags) !== JSON.stringify(wt)) fail('the set of lines is wrong', {got: tags, want: wt}); for (const t of tags) { const ks = Object.keys(r.props[t]).sort(), wk = [...w.Y.get(t).keys()].sort(); if (JSON.stringify(ks) !== JSON.stringify(wk)) fail('the set of properties is wrong', {tag: t, got: ks, want: wk}); for (const k of ks) if (r.props[t][k] !== w.Y.get(t).get(k)) fail('a property value is wrong', {tag: t, key: k, got: r.props[t][k], want: w.Y.get(t).get(k)}); }
    if (w.dataStart !== undefined && (!eq(r.data, w.data) || r.crc32.toString('hex') !== w.crc)) fail('data or CRC is wrong', {got: r.data, want: w.data});
  } else { if (w.err || isErr) return; const c = {}; (r.warnings || []).forEach(x => { c[x.code] = (c[x.code] || 0) + 1; }); const all = new Set([...Object.keys(c), ...Object.keys(w.w)]); for (const k of all) if (!!c[k] !== !!w.w[k]) fail((w.w[k] ? 'missing warning ' : 'unjustified warning ') + k, {got: c, want: w.w}); }
}
// ---- argument validation
const T = {buf: n => Buffer.alloc(n, 97), notbuf: () => pick([undefined, null, 5, 'abc', {}, [1, 2, 3, 4], true, NaN, () => 1])};
const anInt = () => pick([0, 1, -1, 2, 127, 128, 129, -128, 2147483647, -2147483648, -2147483649, 4294967296, -4294967295, -4294967296, 4294967297, 2 ** 53 - 1, -(2 ** 53) + 1, rn(300), rn(300), -rn(300) - 1, 2 ** 31, 2 ** 40, 2 ** 63, -(2 ** 63), 2 ** 64, -(2 ** 64), 1e30, -1e30]);
function tArgs() {
  const f = pick(['encode', 'encodeTo', 'decode', 'decodeTo', 'decodeChunk', 'crc32', 'crc32_combine', 'crc32_zeroes', 'crc32_multiply', 'crc32_shift']); const argc = rn(5), n = rn(4) ? 1 + rn(40) : 0;
  let args = [], bad = false, dst = null, why = '', want = null; const opt = () => rn(2);
  const src = () => { if (rn(6)) { const b = T.buf(n); args.push(b); return b; } args.push(T.notbuf()); bad = true; why = 'no source buffer'; return null; };
  const crcArg = () => { const m = rn(5); if (m < 3) { args.push(be(r32())); return; } bad = true; why = 'not a 4-byte buffer'; args.push(m === 3 ? T.buf(pick([0, 1, 3, 5, 8])) : T.notbuf()); };
  let ls = 128, col = 0; const lsArgs = () => { if (!opt()) return; let v = anInt(); args.push(v); if (v < 0) { bad = bad || (why = 'negative line length', true); } ls = v === 0 ? 128 : v; if (!opt()) return; let c = rn(3) ? anInt() : ls; args.push(c); if (c > 2 ** 31 - 1 && ls >= 2 ** 31 - 1) c = ls = 2 ** 31 - 1; /* both saturate */ if (c < 0 || c > ls) { bad = true; why = 'column out of range'; } else if (c === ls) c = 0; col = c; };
  if (f === 'encode') { if (rn(12) === 0) { bad = true; why = 'no arguments'; } else { const b = src(); lsArgs(); if (b && n === 0) bad = false; if (b) want = () => specEncode(b, ls, col, true).out; } }
  else if (f === 'encodeTo') { if (rn(12) === 0) { bad = true; why = 'missing arguments'; if (rn(2)) args.push(T.buf(n)); } else { const b = src(); let dl; if (rn(6)) { args.push(null); lsArgs(); const L = Math.min(Math.max(ls, 1), 2 ** 31 - 1), need = maxNative(n, L); dl = pick([need, need, need + rn(5), need - 1, rn(need), 0]); dst = args[1] = Buffer.alloc(dl, 0xAA); if (dl < need) { if (n && b) { bad = true; why = why || 'destination too small'; } } } else { args.push(T.notbuf()); bad = true; why = 'no destination'; lsArgs(); } if (b && dst && n === 0) bad = false; if (b && dst) want = () => { const o = specEncode(b, ls, col, true).out; return o; }; } }
  else if (f === 'decode') { if (rn(12) === 0) { bad = true; why = 'no arguments'; } else { const b = src(); if (opt()) args.push(!!rn(2)); } }
  else if (f === 'decodeTo') { if (rn(12) === 0) { bad = true; why = 'missing arguments'; if (rn(2)) args.push(T.buf(n)); } else { const b = src(); if (rn(6)) { const dl = pick([n, n + 1, n - 1, rn(n + 1)]); dst = Buffer.alloc(Math.max(0, dl), 0xAA); args.push(dst); if (b && Math.max(0, dl) < n) { bad = true; why = 'destination too small'; } } else { args.push(T.notbuf()); bad = true; why = 'no destination'; } if (opt()) args.push(!!rn(2)); } }
  else if (f === 'decodeChunk') { const b = src(); if (!b) { const v = args[0]; if (v && typeof v !== 'string' && v.length === 0) return; if (typeof v === 'function') return; } if (opt()) args.push(pick([null, undefined, '', '\r\n', '=', '\r', '\r\n.', 'zz', '\r\n.=', '\r\n.\r', '\r\n=', '\r\n=y', 'abc\r'])); if (args.length > 1 && opt()) { const dl = pick([n, n + 1, n - 1, rn(n + 1)]); dst = Buffer.alloc(Math.max(0, dl), 0xAA); args.push(dst); if (b && Math.max(0, dl) < n) { bad = true; why = 'destination too small'; } } }
  else if (f === 'crc32') { if (rn(12) === 0) { bad = true; why = 'no arguments'; } else { src(); if (opt()) crcArg(); } }
  else if (f === 'crc32_combine') { const k = rn(6); if (k > 0) crcArg(); if (k > 1) crcArg(); if (k > 2) args.push(Math.abs(anInt())); else { bad = true; why = 'missing arguments'; } }
  else if (f === 'crc32_zeroes' || f === 'crc32_shift') { if (rn(8) === 0) { bad = true; why = 'no arguments'; } else { args.push(anInt()); if (opt()) crcArg(); } }
  else { const k = rn(6); if (k > 0) crcArg(); if (k > 1) crcArg(); else { bad = true; why = 'missing arguments'; } }
  current = {op: f, args: args.map(show), expected: bad ? 'error: ' + why : 'no error'};
  const g = attempt(() => y[f](...args));
  if (bad !== !!g.err) fail(bad ? 'invalid arguments were accepted: ' + why : 'valid arguments were rejected', {error: g.err && g.err.message});
  if (bad && dst) for (const c of dst) if (c !== 0xAA) fail('the destination was written although the call was rejected');
  if (!bad && want && ls <= 2 ** 30) { const w = want(), o = f === 'encode' ? g.val : dst.subarray(0, g.val); if (!eq(o, w)) fail('line length or column is not interpreted as documented', {got: o, want: w}); }
  // the addon's incremental encoder, with and without a destination
  if (raw.encodeIncr && rn(4) === 0) { const L = lineSize(), b = T.buf(1 + rn(60)), need = maxNative(b.length, L), dl = pick([need, need - 1, rn(need)]), big = Buffer.alloc(dl + 64, 0xAA), d2 = big.subarray(0, dl); current = {op: 'encodeIncr', line_size: L, len: b.length, dest: dl}; const q = attempt(() => raw.encodeIncr(b, d2, L)); for (let k = 0; k < 64; k++) if (big[dl + k] !== 0xAA) fail('encodeIncr wrote outside the destination'); if (dl < need && !q.err) fail('encodeIncr accepted a destination that is too small'); if (dl >= need && q.err) fail('encodeIncr rejected a large enough destination'); }
}
const RUN = {E01: tEncode, E02: tEncode, E03: tEncode, E04: tEncode, D01: tDecode, D02: tDecode, D05: tDecode, D03: tChunk, D04: tChunk, C01: tCrc, C02: tCrc, C03: tCrc, C04: tCrc, P01: tPost, P02: tMulti, P03: tFrom, P04: tFrom, A01: tArgs};
const t0 = Date.now(), lim = Number(secsA) * 1000, fn = RUN[prop];
while (Date.now() - t0 < lim) { for (let k = 0; k < 50; k++) { fn(); evals++; } if (!sample && current) sample = JSON.parse(JSON.stringify(current)); }
console.log(JSON.stringify({ok: {evals, sample}}));
