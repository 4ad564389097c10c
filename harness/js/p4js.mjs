#!/usr/bin/env node
import { fileURLToPath } from "node:url";
import { main } from "./common.mjs";
import { check as extension } from "./extension.mjs";
import { adapter } from "./adapter.mjs";
import { check as version } from "./version.mjs";
main(fileURLToPath(import.meta.url), [adapter, extension, version]);
