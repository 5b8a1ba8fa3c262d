%{
att!(@LIB@);
// what this says ends here
%}
%attr Att
%target Run
%%
%token A "a"
%token B "b"
%token C "c"
%token D "d"
%token E "e"
%%
Doc: | Doc Item .
Item: A !{ self.say(&[&$1.text, "@", &$1.place]); !}
  | B !{ $INJECT("aa".to_string(), "one".to_string()); self.say(&["b@", &$1.place]); !}
  | C !{ $INJECT("ab".to_string(), "two".to_string()); $INJECT("a".to_string(), "three".to_string()); self.say(&["c@", &$1.place]); !}
  | D E !{ $INJECT("".to_string(), "four".to_string()); self.say(&["de@", &$2.place]); !}
  .
