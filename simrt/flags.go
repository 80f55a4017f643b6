package simrt

// Flags has one digit per yield point: 1 if it is at a statement that mentions
// package-level state, 2 if at one that writes through a parameter (or after
// one). cmd/instr replaces this file in the overlay.
const Flags = ""
