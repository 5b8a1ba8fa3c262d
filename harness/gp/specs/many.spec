%{
att!(@LIB@);
// what this says ends here %}
%attr Att
%target Run
%%
%token L ([a-z])
%token P ([A-Z])
%token X "1"
%token Y "2"
%%
Top: L L L L L L L L L L L L !{ self.say(&[&$12.text, &$11.text, &$1.text, "$x", &$10.text, &$2.text, &$$.text]); !}
  | X Vals !{ self.say(&[&$1.text, &$2.text, &$$.text]); !}
  .
Vals: None Mid End !{ self.say(&[&$1.text, "|", &$2.text, "|", &$3.text, "|", &$$.text]); $$.text = "v".to_string(); !} .
None: .
Mid: P Y | .
End: L !{ $$.text.push('!'); !}
  | !{ $$.text = "end".to_string(); !}
  .
