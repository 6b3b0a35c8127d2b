import { finish } from "./prop.mjs";
await import("./" + process.argv[2] + ".mjs");
finish();
