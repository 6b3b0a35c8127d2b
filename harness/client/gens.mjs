import { fc } from "./prop.mjs";
const frag = fc.constantFrom(
  "SELECT ", "* ", "FROM ", "users ", "WHERE ", "a", "b", "id", " = ", " < ", "<", ">", " <> ", "'x'", "'it''s'", '"Q"', "`t`", "$1", "$var", "${HOME}", "$(id)", "\\", "\\n", "\\\\", "\n", "\t",
  "-- c\n", "/* c */", ";", "&", "&amp;", "&lt;", "<b>", "</div>", "<!--", "<img src=x onerror=1>", "!", "!=", "#", "%", "*", "~", "?", "[1]", "{a,b}", "(", ")", "é", "日本語", "😀", "\u2028", " ", "  ", "'", '"', "`", "$", "=", ",", "0", "42", "|", "\r\n"
);
export const wild = fc.array(frag, { maxLength: 14 }).map((a) => a.join(""));
export const wild1 = fc.array(frag, { minLength: 1, maxLength: 14 }).map((a) => a.join(""));
export const special = fc.constantFrom("__proto__", "constructor", "toString", "hasOwnProperty", "valueOf", "0", "1", "10", "length");
export const sql = fc.oneof({ weight: 5, arbitrary: wild1 }, { weight: 1, arbitrary: special }, { weight: 2, arbitrary: fc.constantFrom("SELECT 1", "SELECT * FROM users WHERE id = ?", "UPDATE t SET a=1", "COMMIT") });
export const word = fc.oneof(
  fc.constantFrom("users", "tasks", "id", "name", "created_at", "a", "b", "userId", "UserTable", "order", "group", "user", "select", "T1", "_x", "x2", "key", "index", "table"),
  fc.stringMatching(/^[A-Za-z_][A-Za-z0-9_]{0,8}$/)
);
export const name = fc.oneof({ weight: 6, arbitrary: word }, { weight: 1, arbitrary: fc.constantFrom("a b", "a-b", 'q"q', "b`t", "it's", "a.b", "日本", "$x", "1a", "a$b", "back\\slash", "a&b", "a<b", "`a`b`", "'it''s'", '"q"q"', "$x$y", "a&b&c", "a,b", "a+b:c") });
