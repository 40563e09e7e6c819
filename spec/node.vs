== Node::new
ret r
ensures
    r.pos == pos,
    r.tag@ == tag.vtext(),
    yv(r) == yaml.vinto(),

== Node::new_repr
ret r
ensures
    r.pos == pos,
    r.tag@ == tag.vtext(),
    r.yaml == yaml,

== Node::set_yaml
ensures
    final(self).pos == old(self).pos && final(self).tag == old(self).tag,
    yv(*final(self)) == yaml.vinto(),

== Node::set_repr
ensures
    final(self).pos == old(self).pos && final(self).tag == old(self).tag,
    final(self).yaml == yaml,

== Node::pos
ret r
ensures
    r == self.pos,

== Node::yaml
ret r
ensures
    *r == yv(*self),

== Node::clone_yaml
ret r
ensures
    *r == yv(*self),

== Node::rc_ref
ret r
ensures
    **r == yv(*self),

== <Node as Clone>::clone
ret r
ensures
    r.pos == self.pos && r.tag@ == self.tag@ && yv(r) == yv(*self),
    r == *self,

== <Yaml as Clone>::clone
ret r
ensures
    match *self { Yaml::Seq(v) => r is Seq && r->Seq_0@ =~= v@, _ => r == *self },
