// Reads a piece of HTML the way a browser does as far as text and tags are concerned.
import { decodeEntities } from "./svelte.mjs";
export function parseHtml(src) {
  let text = "";
  const tags = [];
  let i = 0;
  while (i < src.length) {
    if (src[i] === "<") {
      if (src.startsWith("<!--", i)) {
        const e = src.indexOf("-->", i + 4);
        i = e < 0 ? src.length : e + 3;
        continue;
      }
      const m = /^<(\/?)([A-Za-z][^\s\/>]*)/.exec(src.slice(i));
      if (m) {
        // up to the closing >, outside quotes
        let j = i + m[0].length;
        let q = null;
        let attrs = "";
        while (j < src.length && (q || src[j] !== ">")) {
          if (q) {
            if (src[j] === q) q = null;
          } else if (src[j] === '"' || src[j] === "'") q = src[j];
          attrs += src[j];
          j++;
        }
        tags.push(m[1] + m[2].toLowerCase() + (m[1] ? "" : attrs.replace(/\s+/g, " ").replace(/\/$/, "").trimEnd()));
        if (m[2].toLowerCase() === "br" || /^(div|p|tr)$/i.test(m[2])) text += "\n";
        i = j + 1;
        continue;
      }
      if (/^<[!?\/]/.test(src.slice(i))) {
        const e = src.indexOf(">", i);
        i = e < 0 ? src.length : e + 1;
        continue;
      }
    }
    let e = i + 1;
    while (e < src.length && src[e] !== "<") e++;
    text += decodeText(src.slice(i, e));
    i = e;
  }
  return { text, tags };
}
// named references without a semicolon are decoded too, as browsers do for the old ones
const decodeText = (s) => decodeEntities(s.replace(/&(amp|lt|gt|quot|nbsp)(?!;)/g, "&$1;").replace(/&#(\d+)(?![\d;])/g, "&#$1;"));
export const squash = (s) => s.replace(/[\s\u00a0]+/g, " ").trim();
