export const format = (text) => { if (typeof text !== "string") throw new Error("Invalid query argument. Expected string, instead got " + typeof text); return text; };
