// The JavaScript client's surroundings: runs bomba.js with a fetch() and a DOM under the simulator's control.
// Talks in lines of JSON with the simulator (scen/web.cpp), which decides when anything happens.
import fs from "node:fs";
import { registerHooks } from "node:module";
import { pathToFileURL } from "node:url";

const target = pathToFileURL(process.argv[2]).href;
registerHooks({
	resolve(specifier, context, next) {
		if (specifier === "node-fetch") return { url: "data:text/javascript,export default (...args) => globalThis.simulatedFetch(...args)", shortCircuit: true };
		return next(specifier, context);
	},
	load(url, context, next) { return next(url, url.startsWith("file:") && url.includes(".js") ? { ...context, format: "module" } : context); }
});
await import("node-fetch");
process.on("unhandledRejection", () => {});
process.on("uncaughtException", () => {});

let generation = 0, module, loaded, events, fetches, forms;
const real = { fetch: globalThis.fetch };

function simulatedFetch(url, options = {}) {
	return new Promise((resolve, reject) => {
		const id = fetches.length;
		fetches.push({ resolve, reject });
		events.push({ e: "fetch", id, url: String(url), method: options.method ?? "GET", headers: Object.entries(options.headers ?? {}), body: options.body ?? "" });
	});
}
globalThis.simulatedFetch = simulatedFetch;

class Element {
	constructor(tag) { this.tagName = String(tag).toUpperCase(); this.children = []; this.attributes = {}; this._value = ""; this.checked = false; this.text = ""; this.listeners = []; this.classList = { add() {}, remove() {}, toggle() {} }; this.style = {}; this.dataset = {}; this.parentNode = null; }
	remove() { if (this.parentNode) this.parentNode.children.splice(this.parentNode.children.indexOf(this), 1); this.parentNode = null; }
	insertBefore(child, next) { if (!(child instanceof Element)) throw new TypeError("not an element"); child.remove(); child.parentNode = this; const at = next ? this.children.indexOf(next) : this.children.length; this.children.splice(at, 0, child); return child; }
	appendChild(child) { return this.insertBefore(child, null); }
	append(...all) { for (const one of all) this.appendChild(one instanceof Element ? one : document.createTextNode(one)); }
	prepend(...all) { const first = this.children[0] ?? null; for (const one of all) this.insertBefore(one instanceof Element ? one : document.createTextNode(one), first); }
	replaceChildren(...all) { this.text = ""; for (const one of this.children) one.parentNode = null; this.children = []; this.append(...all); }
	removeChild(child) { child.remove(); return child; }
	setAttribute(name, value) { this.attributes[name] = String(value); if (name === "type") this.type = String(value); }
	getAttribute(name) { return this.attributes[name] ?? null; }
	hasAttribute(name) { return name in this.attributes; }
	toggleAttribute(name) { if (name in this.attributes) delete this.attributes[name]; else this.attributes[name] = ""; }
	addEventListener(name, f) { if (name === "click") this.listeners.push(f); }
	get type() { return this._type ?? "text"; }
	set type(value) { this._type = value; }
	get value() { return this._value; }
	set value(value) { this._value = String(value); }
	get valueAsNumber() { return parseFloat(this._value); }
	get parentElement() { return this.parentNode; }
	get childNodes() { return this.children; }
	get firstChild() { return this.children[0] ?? null; }
	get textContent() { return this.texts().join(""); }
	set textContent(value) { this.replaceChildren(); this.text = value === null ? "" : String(value); }
	get innerText() { return this.textContent; }
	set innerText(value) { this.textContent = value; }
	get innerHTML() { return this.textContent; }
	set innerHTML(value) { this.textContent = value; }
	click() { this.press(); }
	press() { const event = { target: this, currentTarget: this, preventDefault() {}, stopPropagation() {} }; if (this.onclick) this.onclick(event); for (const f of this.listeners) f.call(this, event); }
	find(tag, found = []) { if (this.tagName === tag) found.push(this); for (const one of this.children) one.find(tag, found); return found; }
	texts(found = []) { found.push(this.text); for (const one of this.children) one.texts(found); return found; }
}
globalThis.document = { createElement: (tag) => new Element(tag), createTextNode: (text) => { const made = new Element("#text"); made.textContent = text; return made; } };

const describeError = (error) => error instanceof Error ? error.name + ": " + error.message : String(error);
function follow(id, promise) {
	const settled = (ok, value) => {
		if (id.done) events.push({ e: "again", id: id.id });
		id.done = true;
		const json = JSON.stringify(value);
		events.push({ e: "done", id: id.id, ok, value: ok ? json === undefined ? "null" : json : describeError(value) });
	};
	Promise.resolve(promise).then((value) => settled(true, value), (error) => settled(false, error));
}
function build(value) { // arguments as the simulator writes them
	if (Array.isArray(value)) return value.map(build);
	if (value === null || typeof value !== "object") return value;
	if ("$new" in value) return new loaded[1][value.$new](...value.args.map(build));
	if ("$undefined" in value) return undefined;
	return Object.fromEntries(Object.entries(value).map(([key, one]) => [key, build(one)]));
}
const at = (path) => path.split(".").reduce((api, part) => api[part], loaded[0]);
function functions(api, prefix, found) {
	for (const [name, value] of Object.entries(api)) {
		if (name === "gui") continue;
		if (typeof value === "function") found.push(prefix + name);
		else functions(value, prefix + name + ".", found);
	}
	return found;
}
const formOf = (button) => { for (let e = button; e; e = e.parentNode) if (e.tagName === "DETAILS" || !e.parentNode) return e; };

const commands = {
	async reset({ mode }) {
		events = []; fetches = []; forms = []; loaded = undefined;
		generation++;
		if (mode === "browser") { globalThis.window = globalThis; globalThis.fetch = simulatedFetch; }
		else { delete globalThis.window; globalThis.fetch = undefined; }
		module = await import(target + "?" + generation);
		return true;
	},
	load() { follow({ id: "load" }, module.loadApi().then((made) => { loaded = made; return null; })); },
	list() { return { functions: functions(loaded[0], "", []), types: Object.keys(loaded[1]), service: loaded[2] }; },
	call({ id, path, args }) {
		let made;
		try { made = args.map(build); } catch (error) { events.push({ e: "unmade", id, why: describeError(error) }); return; }
		let promise;
		try { promise = at(path)(...made); } catch (error) { promise = Promise.reject(error); }
		follow({ id }, promise);
	},
	form({ path }) {
		try {
			const root = path === null ? loaded[0].gui() : at(path).gui();
			forms.push(root);
			return { form: forms.length - 1, buttons: root.find("BUTTON").map((button) => formOf(button).find("INPUT").map((input) => input.type)) };
		} catch (error) { return { error: describeError(error) }; }
	},
	press({ form, button, values }) {
		const pressed = forms[form].find("BUTTON")[button];
		formOf(pressed).find("INPUT").forEach((input, index) => { if (input.type === "checkbox") input.checked = values[index]; else input.value = String(values[index]); });
		pressed.press();
	},
	texts({ form, button }) { return formOf(forms[form].find("BUTTON")[button]).texts(); },
	head({ id, status }) {
		const text = new Promise((resolve, reject) => { fetches[id].text = resolve; fetches[id].broken = reject; });
		text.catch(() => {});
		fetches[id].resolve({ ok: status >= 200 && status < 300, status, headers: { get: () => "application/json" }, text: () => text, json: () => text.then(JSON.parse) });
	},
	body({ id, text }) { fetches[id].text(text); },
	fail({ id }) { (fetches[id].broken ?? fetches[id].reject)(new TypeError("Failed to fetch")); }
};

let unread = "";
function readLine() {
	const chunk = Buffer.alloc(1 << 16);
	let parts = [];
	while (true) {
		const end = unread.indexOf("\n");
		if (end >= 0) { const line = unread.slice(0, end); unread = unread.slice(end + 1); return line; }
		let n = 0;
		try { n = fs.readSync(0, chunk); } catch (error) { if (error.code === "EAGAIN") continue; process.exit(0); }
		if (n === 0) process.exit(0);
		unread += chunk.latin1Slice(0, n); // decoded when complete
	}
}
while (true) {
	const line = readLine();
	let command;
	try { command = JSON.parse(Buffer.from(line, "latin1").toString("utf8")); } catch { continue; }
	let value, error;
	try { value = await commands[command.c](command); } catch (problem) { error = describeError(problem); }
	for (let i = 0; i < 6; i++) await new Promise((resolve) => setImmediate(resolve));
	const text = Buffer.from(JSON.stringify({ nonce: command.nonce, value: value ?? null, error, events: events ?? [] }) + "\n");
	events = [];
	for (let sent = 0; sent < text.length;) { try { sent += fs.writeSync(1, text, sent); } catch (problem) { if (problem.code !== "EAGAIN") process.exit(0); } }
}
