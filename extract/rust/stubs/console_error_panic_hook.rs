pub fn set_once() { loop {} }
