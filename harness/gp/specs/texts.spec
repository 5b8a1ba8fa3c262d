%{
att!(@LIB@);
const WORDS: &str = "one  
 	two %% // /* %token
	
%left $1 three";
// what this says ends here %}
%attr Att
%target Run
%%
%token Quote "\""
%token Back (\\)
%token Brace "{}"
%token Open "{"
%token Hash "#"
%token Euro "é"
%token Stars "/*"
%token Slash "//"
%token One ('")
%token Two (\(\.["x]\))
%token Three (%+)
%skip (\s+)
%skip (!"###[^!]*!)
%%
Doc: | Doc Item .
Item: Quote !{ self.say(&["Quote ", &$1.text]); !}
  | Back !{ self.say(&["Back ", &$1.text]); !}
  | "{}" !{ self.say(&["Brace ", &$1.text]); !}
  | Open !{ self.say(&["Open ", &$1.text]); !}
  | "#" !{ self.say(&["Hash ", &$1.text]); !}
  | "é" !{ self.say(&["Euro ", &$1.text]); !}
  | "/*" !{ self.say(&["Stars ", &$1.text]); !}
  | Slash !{ self.say(&["Slash ", &$1.text, WORDS]); !}
  | One !{ // some lines  
      self.say(&["One ", &$1.text, "four  
	 five
 %% // /* . | 
"]); /* more */ !}
  | Two !{ self.say(&["Two ", &$1.text]); !}
  | Three !{ self.say(&["Three ", &$1.text]); !}
  .
