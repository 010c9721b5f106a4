export const format = (s) => s;
