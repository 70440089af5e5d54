import { c30 } from "./import.mjs";
import { c31, c32, c35 } from "./render.mjs";
import { c36 } from "./component.mjs";
import { c41 } from "./page.mjs";
export const checks = { C30: c30, C31: c31, C32: c32, C35: c35, C36: c36, C41: c41 };
