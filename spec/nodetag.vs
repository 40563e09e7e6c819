== Node::tag
ret r
ensures
    r@ == node_tag(*self),
proof start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(self.tag@.len() == 0 ==> self.tag@ =~= ""@); }
