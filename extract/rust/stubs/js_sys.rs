pub struct Uint8Array;
