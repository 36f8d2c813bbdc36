pub fn remaining_stack() -> Option<usize> { None }
