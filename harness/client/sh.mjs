// Splits a command line the way a POSIX shell does, without running anything. Expansions other than ${NAME} of names in
// env are reported, as are operators outside quotes: a command to paste must not contain them by accident.
export function shSplit(src, env = {}) {
  const words = [];
  let cur = null;
  let quoted = false;
  const add = (s) => (cur = (cur ?? "") + s);
  const end = () => {
    if (cur !== null) words.push(cur);
    cur = null;
  };
  const dollar = (i) => {
    // returns [text, next index]
    const m = /^\$\{([A-Za-z_]\w*)\}/.exec(src.slice(i)) ?? /^\$([A-Za-z_]\w*)/.exec(src.slice(i));
    if (m) {
      if (!(m[1] in env)) throw new Error(`the shell would replace ${m[0]}`);
      return [env[m[1]], i + m[0].length];
    }
    if (/^\$[0-9@*#?$!({'"-]/.test(src.slice(i)) && !(src[i + 1] === '"' )) throw new Error(`the shell would replace ${JSON.stringify(src.slice(i, i + 8))}`);
    return ["$", i + 1];
  };
  let i = 0;
  while (i < src.length) {
    const c = src[i];
    if (c === "\\") {
      if (i + 1 >= src.length) throw new Error("the command ends in a backslash");
      if (src[i + 1] === "\n") i += 2;
      else {
        add(src[i + 1]);
        i += 2;
      }
    } else if (c === "'") {
      const e = src.indexOf("'", i + 1);
      if (e < 0) throw new Error("single quote not closed");
      add(src.slice(i + 1, e));
      i = e + 1;
    } else if (c === '"') {
      add("");
      i++;
      for (;;) {
        if (i >= src.length) throw new Error("double quote not closed");
        const d = src[i];
        if (d === '"') {
          i++;
          break;
        }
        if (d === "\\") {
          const n = src[i + 1];
          if (n === "\n") i += 2;
          else if (n === "$" || n === "`" || n === '"' || n === "\\") {
            add(n);
            i += 2;
          } else {
            add("\\");
            i++;
          }
        } else if (d === "`") throw new Error("the shell would run the text after a backquote");
        else if (d === "$") {
          if (src[i + 1] === '"' || src[i + 1] === "'") {
            add("$");
            i++;
            continue;
          }
          const [t, n] = dollar(i);
          add(t);
          i = n;
        } else {
          add(d);
          i++;
        }
      }
    } else if (c === "$") {
      if (src[i + 1] === "'" || src[i + 1] === '"') throw new Error("the shell would treat $ before a quote specially");
      const [t, n] = dollar(i);
      if (t !== "$") throw new Error("unquoted expansion");
      add(t);
      i = n;
    } else if (c === "`") throw new Error("the shell would run the text after a backquote");
    else if (c === " " || c === "\t") {
      end();
      i++;
    } else if (c === "\n") throw new Error("the command ends at a line break: the rest is another command");
    else if (";&|<>()".includes(c)) throw new Error(`operator ${c} outside quotes`);
    else if ("*?[".includes(c) || (c === "~" && cur === null) || (c === "{" && /^\{[^}]*[,.][^}]*\}/.test(src.slice(i)))) throw new Error(`pattern character ${c} outside quotes`);
    else if (c === "#" && cur === null) throw new Error("comment");
    else if (c === "!" && cur === null && words.length === 0) throw new Error("reserved word !");
    else {
      add(c);
      i++;
    }
  }
  end();
  return words;
}
// env assignments before the command name
export function command(src, env) {
  const words = shSplit(src, env);
  const vars = {};
  while (words.length && /^[A-Za-z_]\w*=/.test(words[0])) {
    const w = words.shift();
    vars[w.slice(0, w.indexOf("="))] = w.slice(w.indexOf("=") + 1);
  }
  return { vars, words };
}
// options of gr: -x v, -xv, --name v, --name=v; names in bools take no value
export function options(words, bools) {
  const rest = [];
  const opts = {};
  const put = (k, v) => (opts[k] ??= []).push(v);
  for (let i = 0; i < words.length; i++) {
    const w = words[i];
    if (w.startsWith("--") && w.length > 2) {
      const eq = w.indexOf("=");
      if (eq > 0) put(w.slice(2, eq), w.slice(eq + 1));
      else if (bools.includes(w.slice(2))) put(w.slice(2), true);
      else if (i + 1 < words.length) put(w.slice(2), words[++i]);
      else throw new Error("option without value: " + w);
    } else if (w.startsWith("-") && w.length > 1) {
      if (bools.includes(w[1])) put(w[1], true);
      else if (w.length > 2) put(w[1], w.slice(w[2] === "=" ? 3 : 2));
      else if (i + 1 < words.length) put(w[1], words[++i]);
      else throw new Error("option without value: " + w);
    } else rest.push(w);
  }
  return { rest, opts };
}
