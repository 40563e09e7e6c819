== Parser::indicator
ret r
requires
    self.wf(),
ensures
    [C11 C12] r == self.consumed + self.pos,

== Parser::err
ret r
requires
    self.wf(),
ensures
    r is Err && r->Err_0 is Terminate,
    [C12] r->Err_0->Terminate_name == name,
    [C12] is_msg(r->Err_0->Terminate_msg@, self.doc@, self.pos as int),

