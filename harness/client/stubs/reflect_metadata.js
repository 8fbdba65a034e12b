export {};
