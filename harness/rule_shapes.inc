// Shapes of expressions (prefix) and conditions on their constants; written by tools/dump_rules.cc.
"! ! x",
"! != x y",
"! && x ! y",
"! < x y",
"! <= x y",
"! == x y",
"! select x c0 z",
"! select x y c0",
"! || x ! y",
"% + x c0 c1 ; != % c0 c1 c0",
"% select x c0 c1 c2",
"% select x c0 y c2",
"% select x y c1 c2",
"% x 0",
"% x 1",
"% x x",
"&& != x c0 < c1 x ; < c0 c1",
"&& != x c0 < x c1 ; < c1 c0",
"&& != x c0 <= c1 x ; < c0 c1",
"&& != x c0 <= x c1 ; < c1 c0",
"&& != x y && z == x y",
"&& != x y < x y",
"&& != x y <= x y",
"&& && x y && z w",
"&& < c0 x < c1 x",
"&& < c0 x < x c1 ; <= c1 + c0 1",
"&& < c0 x <= x c1 ; <= c1 c0",
"&& < x + y opt 0 c0 < y + x opt 0 c1 ; < + c1 c0 2",
"&& < x + y opt 0 c0 <= + y opt 0 c1 x ; < c0 + c1 1",
"&& < x c0 < x c1",
"&& < x c1 <= c0 x ; <= c1 c0",
"&& <= + x opt 0 c0 y <= + y opt 0 c1 x ; < - 0 c1 c0",
"&& <= c0 x <= c1 x",
"&& <= c0 x <= x c1 ; < c1 c0",
"&& <= x c0 <= x c1",
"&& <= x y <= y x",
"&& == x c0 < c1 x ; < c1 c0",
"&& == x c0 < x c1 ; < c0 c1",
"&& == x c0 <= c1 x ; <= c1 c0",
"&& == x c0 <= x c1 ; <= c0 c1",
"&& == x c0 == x c1 ; != c0 c1",
"&& == x c1 != x c0 ; != c0 c1",
"&& == x y != x y",
"&& == x y && z != x y",
"&& == x y < x y",
"&& == x y <= x y",
"&& x ! x",
"&& x && opt 1 y && opt 1 z && opt 1 w x",
"&& x && y || x z",
"&& x c0 ; != c0 0",
"&& x x",
"&& x || x y",
"&& x || y && x z",
"&& || x y || x z",
"* * x c0 c1",
"* + x c0 c1",
"* - c0 x c1",
"* select x c0 c1 c2",
"* select x c0 y c2",
"* select x y c1 c2",
"* x 0",
"* x 1",
"* y * x c0",
"+ * x opt 1 c0 * x opt 1 c1",
"+ * x y * x z",
"+ + x opt 0 c0 + y opt 0 c1 ; || != c0 0 != c1 0",
"+ + x opt 0 y + x opt 0 z",
"+ + x y - x z",
"+ + x y - z x",
"+ - x y - x z",
"+ - x y - z x",
"+ - y x - z x",
"+ max x + y c1 c2 ; == c1 - 0 c2",
"+ min x + y c1 c2 ; == c1 - 0 c2",
"+ stair x 0 c0 c0 % x c0 ; != c0 0",
"+ stair x c0 c1 c2 c3 ; && && && != c0 0 != c1 0 != c2 0 == % c3 c2 0",
"+ w select x - y w z",
"+ w select x y - z w",
"+ x * x y ; ! ?",
"+ x - c0 y",
"+ x - x y",
"+ x - y x",
"+ x 0",
"+ z max x - y + z opt 0 w",
"+ z max x - y - z w",
"+ z min x - y + z opt 0 w",
"+ z min x - y - z w",
"- * / x c0 c0 x ; < 0 c0",
"- * x opt 1 c0 * x opt 1 c1",
"- + x opt 0 c0 + y opt 0 c1 ; || != c0 0 != c1 0",
"- + x opt 0 y + x z",
"- + x opt 0 y x",
"- - c0 x - y z",
"- - c0 x y",
"- - x y - x opt 0 z",
"- - x y - z y",
"- / + x opt 0 c1 c0 / + x y c0 ; < 0 c0",
"- / + x opt 0 c1 c0 / - x y c0 ; < 0 c0",
"- / + x y c0 / + x opt 0 c1 c0 ; < 0 c0",
"- / - x y c0 / + x opt 0 c1 c0 ; < 0 c0",
"- / max x y c0 / min x y c0 ; < 0 c0",
"- / min x y c0 / max x y c0 ; < 0 c0",
"- c0 - x y",
"- c2 max + x c0 + y c1",
"- c2 max + x c0 - c1 y",
"- c2 min + x c0 + y c1",
"- c2 min + x c0 - c1 y",
"- c2 select x + opt 0 y c0 + opt 0 z c1",
"- c2 select x + opt 0 y c0 - c1 z",
"- c2 select x - c0 y + opt 0 z c1",
"- c2 select x - c0 y - c1 z",
"- max x + y z z",
"- max x y min x y",
"- max x y x ; ! ?",
"- min x + y z z",
"- min x y max x y",
"- min x y x ; ! ?",
"- select x + opt 0 y w z w",
"- select x - w y z w",
"- select x y + opt 0 z w w",
"- select x y - w z w",
"- select x y z select x w u",
"- w select x + opt 0 y w z",
"- w select x - w y z",
"- w select x y + opt 0 z w",
"- w select x y - w z",
"- x * / x c0 c0 ; < 0 c0",
"- x * y c0",
"- x - c0 y",
"- x / y c0 ; <= c0 0",
"- x 0",
"- x max x y ; ! ?",
"- x min x y ; ! ?",
"- z max x - z y",
"- z min x - z y",
"/ * x c0 * y c1 ; && < 0 c0 == % c1 c0 0",
"/ * x c0 * y c1 ; && < 0 c1 == % c0 c1 0",
"/ * x c0 c1 ; && < 0 c0 == % c1 c0 0",
"/ * x c0 c1 ; == % c0 c1 0",
"/ * x y x",
"/ + % x 2 c0 2 ; == % c0 2 1",
"/ + x * opt 1 y c0 c1 ; == % c0 c1 0",
"/ + y / x c0 c1 ; < 0 c0",
"/ - * opt 1 y c0 x c1 ; && == % c0 c1 0 != c0 0",
"/ - y / x c0 c1 ; < 0 c0",
"/ / x c0 c1 ; < 0 c0",
"/ 0 x",
"/ c0 * y c1 ; && < 0 c1 == % c0 c1 0",
"/ max y + opt 0 z * x c0 c1 ; && < 0 c1 == % c0 c1 0",
"/ max y - * x c0 z c1 ; && < 0 c1 == % c0 c1 0",
"/ min y + opt 0 z * x c0 c1 ; && < 0 c1 == % c0 c1 0",
"/ min y - * x c0 z c1 ; && < 0 c1 == % c0 c1 0",
"/ select x c0 c1 c2",
"/ select x c0 y c2",
"/ select x y c1 c2",
"/ x -1",
"/ x 0",
"/ x 1",
"/ x x",
"< % x c0 c1 ; && < 0 c0 <= c0 c1 ; && < 0 c0 <= c1 0",
"< * x c0 * y c0 ; < 0 c0 ; < c0 0",
"< + opt 0 t select x y z + opt 0 v select x w u",
"< + opt 0 u + opt 0 z - x y w",
"< + opt 0 w + x opt 0 y + opt 0 u + x opt 0 z",
"< + opt 0 w stair x c0 c1 c1 + x opt 0 z ; < 1 c1",
"< + opt 0 z max y + x opt 0 u + x opt 0 w ; ! ?",
"< + opt 0 z max y - x u + x opt 0 w ; ! ?",
"< + opt 0 z min y + x opt 0 u + x opt 0 w ; ! ?",
"< + opt 0 z min y - x u + x opt 0 w ; ! ?",
"< + x -1 y",
"< + x c0 + opt 0 y c1",
"< + x c0 y",
"< + x opt 0 z + opt 0 w max y + x opt 0 u ; ! ?",
"< + x opt 0 z + opt 0 w max y - x u ; ! ?",
"< + x opt 0 z + opt 0 w min y + x opt 0 u ; ! ?",
"< + x opt 0 z + opt 0 w min y - x u ; ! ?",
"< + x opt 0 z + opt 0 w stair x c0 c1 c1 ; < 1 c1",
"< / max x c0 opt 1 c3 + / max x c1 opt 1 c3 c2 ; && && < 0 c2 < 0 c3 < / c0 c3 + / c1 c3 c2 ; && && < c2 0 < 0 c3 <= + / c1 c3 c2 / c0 c3",
"< / min x c0 opt 1 c3 + / min x c1 opt 1 c3 c2 ; && && < 0 c2 < 0 c3 < / c0 c3 + / c1 c3 c2 ; && && < c2 0 < 0 c3 <= + / c1 c3 c2 / c0 c3",
"< / x c0 c1 ; < 0 c0 ; < c0 0",
"< 0 x ; ?",
"< c0 % x c1 ; && < 0 c1 < c0 0 ; && < 0 c1 <= - c1 1 c0 ; && < 0 c1 == c0 0",
"< c0 + x c1",
"< c0 / x c1 ; < 0 c1 ; < c1 0",
"< c1 max y c0",
"< c1 min y c0",
"< c1 select x c0 y",
"< c1 select x y c0",
"< max x y min x y",
"< max y + x opt 0 c0 + x opt 0 c1",
"< max y c0 c1",
"< max z + y c0 max x y ; < 0 c0",
"< max z y max x + y c0 ; < c0 0",
"< max z y max x y",
"< min x + y opt 0 c0 max z + y opt 0 c1 ; < c0 c1",
"< min x min y z y",
"< min x y max x y",
"< min y + x opt 0 c0 + x opt 0 c1",
"< min y c0 c1",
"< min z + y c0 min x y ; < c0 0",
"< min z y min x + y c0 ; < 0 c0",
"< min z y min x y",
"< select x c0 y c1",
"< select x y c0 c1",
"< select x y z y",
"< select x y z z",
"< stair x c0 c1 c1 x ; && < 1 c1 != c0 0 ; && < 0 c1 == c0 0",
"< stair x c0 c1 c2 + stair x c3 c4 c5 opt 0 c6 ; < 0 + ? c6 ; <= + ? c6 0",
"< w + opt 0 u + opt 0 z - x y",
"< w select x y w",
"< x + max y + x opt 0 c0 opt 0 c1",
"< x + min y + x opt 0 c0 opt 0 c1",
"< x + y 1",
"< x 1 ; ?",
"< x stair x c0 c1 c1 ; && < 1 c1 != c0 0 ; && < 0 c1 == c0 0",
"< x x",
"< x y ; && ? ?",
"< y select x y w",
"== % x c0 c1 ; && < 0 c0 || <= c0 c1 < c1 0",
"== * x c0 * y c1 ; && != c0 0 == % c1 c0 0 ; && != c1 0 == % c0 c1 0",
"== * x c0 c1 ; && != c0 0 == % c1 c0 0",
"== * x y * x z",
"== + opt 0 v select x y z select x w u",
"== + opt 0 w + x opt 0 y + opt 0 u + x opt 0 z",
"== + opt 0 x c0 - c1 y",
"== + x c0 + opt 0 y c1",
"== + x opt 0 y + opt 0 z * / x c0 c0 ; < 0 c0",
"== / max x c0 c1 c2 ; && < 0 c1 < / c0 c1 c2 ; && < 0 c1 == / c0 c1 c2 ; < 0 c1",
"== / min x c0 c1 c2 ; && < 0 c1 < c2 / c0 c1 ; && < 0 c1 == / c0 c1 c2 ; < 0 c1",
"== max x c0 c1 ; < c1 c0 ; < c0 c1",
"== max x c0 max x c1 ; != c0 c1",
"== min x c0 c1 ; < c0 c1 ; < c1 c0",
"== min x c0 min x c1 ; != c0 c1",
"== select x c0 y c1",
"== select x y c0 c1",
"== w + opt 0 u + opt 0 z - x y",
"== x * x y",
"== x 0 ; ?",
"== x 1 ; ?",
"== x x",
"== y max x y",
"== y min x y",
"== y select == x y x z",
"== y select == x y z x",
"== y select x y z",
"== z select x y z",
"abs * x c0 ; < 0 c0",
"abs * x c0 ; < c0 0",
"abs - c0 x",
"abs select x c0 y",
"abs select x y c1",
"and_then 0 x",
"and_then c0 x ; != c0 0",
"and_then x c0 ; != c0 0",
"max * x c0 * y c1 ; && < 0 c0 == % c1 c0 0 ; && < c0 0 == % c1 c0 0 ; && < 0 c1 == % c0 c1 0 ; && < c1 0 == % c0 c1 0",
"max * x c0 c1 ; && < 0 c0 == % c1 c0 0 ; && < c0 0 == % c1 c0 0",
"max + * y c0 c1 * x c0 ; && < 0 c0 == % c1 c0 0 ; && < c0 0 == % c1 c0 0",
"max + / y c0 opt 0 c1 / x c0 ; < 0 c0 ; < c0 0",
"max + max x c0 opt 0 c1 max y c2",
"max + min x c0 opt 0 c1 min y c2 ; < + c0 c1 c2",
"max + min y + x opt 0 c0 opt 0 c1 min z + x opt 0 c2 ; == + c0 c1 c2",
"max + opt 0 w select x y z select x u v",
"max + x c0 + y c1 ; <= c1 c0",
"max + x c0 - c1 opt 0 y ; ?",
"max + x c0 / + y c1 c2 ; != c2 0",
"max + x c0 select y + opt 0 z c1 + opt 0 w c2",
"max + x opt 0 c0 min y + max x z opt 0 c1 ; < c1 c0",
"max + x opt 0 c2 select < c0 x c1 y ; <= c1 + c0 c2",
"max + x opt 0 c2 select < c0 x y c1 ; <= + c0 c2 c1",
"max + x opt 0 c2 select < x c0 c1 y ; <= + c0 c2 c1",
"max + x opt 0 c2 select < x c0 y c1 ; <= c1 + c0 c2",
"max + x opt 0 y + x z",
"max + x opt 0 y - x z ; ?",
"max + x opt 0 z max y + x opt 0 w",
"max - c0 x - c1 opt 0 y",
"max - select x y z w select x u v",
"max - w select x y z select x u v",
"max - x y - x z",
"max - y x - z x",
"max / x c0 c1 ; < 0 c0 ; < c0 0",
"max max v select x y z select x w u",
"max max x c0 c1",
"max max x y max x z",
"max max x y max z w",
"max min v select x y z select x w u",
"max min w z max y min x z",
"max min x max y c0 c1 ; <= c0 c1",
"max min x y max x z",
"max select x select z w u y select z v t",
"max select x y select z w u select z v t",
"max select y c1 c2 c0",
"max stair x c0 c1 c2 + stair x c3 c4 c5 opt 0 c6 ; <= + ? c6 0 ; <= 0 + ? c6",
"max x + max y + x opt 0 c0 opt 0 c1 ; <= + c0 c1 0",
"max x + min x y opt 0 c1 ; <= c1 0",
"max x + x opt 0 c0 ; < 0 c0",
"max x - 0 x",
"max x abs x",
"max x max x y",
"max x max y c0",
"max x max y max x z",
"max x max y max z max w max u max x v",
"max x max y max z max w max x u",
"max x max y max z max x w",
"max x max y min x z",
"max x min y + x opt 0 c0 ; <= c0 0",
"max x min y max x z",
"max x select y max x z w",
"max x select y max z min x u w",
"max x select y min x z w",
"max x select y z max w min x u",
"max x select y z max x w",
"max x select y z min x w",
"max x y ; && ? ?",
"max y select x y w",
"max z select x w z",
"min * x c0 * y c1 ; && < 0 c0 == % c1 c0 0 ; && < c0 0 == % c1 c0 0 ; && < 0 c1 == % c0 c1 0 ; && < c1 0 == % c0 c1 0",
"min * x c0 c1 ; && < 0 c0 == % c1 c0 0 ; && < c0 0 == % c1 c0 0",
"min + * y c0 c1 * x c0 ; && < 0 c0 == % c1 c0 0 ; && < c0 0 == % c1 c0 0",
"min + / y c0 opt 0 c1 / x c0 ; < 0 c0 ; < c0 0",
"min + max x c0 opt 0 c1 max y c2 ; < c2 + c0 c1",
"min + max y + x opt 0 c0 opt 0 c1 max z + x opt 0 c2 ; == + c0 c1 c2",
"min + min x c0 opt 0 c1 min y c2",
"min + opt 0 w select x y z select x u v",
"min + x c0 + y c1 ; <= c1 c0",
"min + x c0 - c1 opt 0 y ; ?",
"min + x c0 / + y c1 c2 ; != c2 0",
"min + x c0 select y + opt 0 z c1 + opt 0 w c2",
"min + x opt 0 c0 max y + min x z opt 0 c1 ; <= c0 c1",
"min + x opt 0 c2 select < c0 x c1 y ; <= c1 + c0 c2",
"min + x opt 0 c2 select < c0 x y c1 ; <= + c0 c2 c1",
"min + x opt 0 c2 select < x c0 c1 y ; <= + c0 c2 c1",
"min + x opt 0 c2 select < x c0 y c1 ; <= c1 + c0 c2",
"min + x opt 0 y + x z",
"min + x opt 0 y - x z ; ?",
"min + x opt 0 z min y + x opt 0 w",
"min - c0 x - c1 opt 0 y",
"min - select x y z w select x u v",
"min - w select x y z select x u v",
"min - x y - x z",
"min - y x - z x",
"min / max x c0 opt 1 c1 c2 ; && < 1 c1 == / c0 c1 c2 ; && < 1 c1 < / c0 c1 c2",
"min / x c0 c1 ; < 0 c0 ; < c0 0",
"min max v select x y z select x w u",
"min max x min y c0 c1 ; <= c1 c0",
"min min v select x y z select x w u",
"min min x c0 c1",
"min min x y max x z",
"min min x y min x z",
"min min x y min z w",
"min min y / max x c0 opt 1 c1 c2 ; && < 1 c1 == / c0 c1 c2 ; && < 1 c1 < / c0 c1 c2",
"min min y max x z max w z",
"min select x select z w u y select z v t",
"min select x y select z w u select z v t",
"min select y c1 c2 c0",
"min stair x c0 c1 c2 + stair x c3 c4 c5 opt 0 c6 ; <= 0 + ? c6 ; <= + ? c6 0",
"min x + max x y opt 0 c1 ; <= 0 c1",
"min x + min y + x opt 0 c0 opt 0 c1 ; <= 0 + c0 c1",
"min x + x opt 0 c0 ; <= 0 c0",
"min x - 0 x",
"min x abs x",
"min x max y + x opt 0 c0 ; <= 0 c0",
"min x max y min x z",
"min x min x y",
"min x min y c0",
"min x min y max x z",
"min x min y min x z",
"min x min y min z min w min u min x v",
"min x min y min z min w min x u",
"min x min y min z min x w",
"min x select y max x z w",
"min x select y max z min x u w",
"min x select y min x z w",
"min x select y z max w min x u",
"min x select y z max x w",
"min x select y z min x w",
"min x y ; && ? ?",
"min y select x y w",
"min z select x w z",
"or_else 0 x",
"or_else c0 x ; != c0 0",
"or_else x 0",
"select ! x y z",
"select < c0 x c1 x ; == + c0 1 c1",
"select < c0 x x c1 ; == + c0 1 c1",
"select < x c0 c1 x ; == c0 + c1 1",
"select < x c0 x c1 ; == c0 + c1 1",
"select < x y max x y z",
"select < x y min x y z",
"select < x y x y",
"select < x y y x",
"select < x y z max x y",
"select < x y z min x y",
"select <= x y max x y z",
"select <= x y min x y z",
"select <= x y x y",
"select <= x y y x",
"select <= x y z max x y",
"select <= x y z min x y",
"select x + select y + z opt 0 c0 w opt 0 c1 select y z u ; == + c0 c1 0",
"select x + select y z + w opt 0 c0 opt 0 c1 select y u w ; == + c0 c1 0",
"select x + y c0 c1",
"select x + y opt 0 z + y opt 0 w",
"select x - w y - w z",
"select x - z y - w y",
"select x 0 1",
"select x 0 y ; ?",
"select x 1 0",
"select x 1 y ; ?",
"select x c0 + y c1",
"select x max y w max z w",
"select x min y w min z w",
"select x select y z w + select y + z opt 0 c0 u opt 0 c1 ; == + c0 c1 0",
"select x select y z w + select y u + w opt 0 c0 opt 0 c1 ; == + c0 c1 0",
"select x select y z w w",
"select x select y z w z",
"select x w select y z w",
"select x y 0 ; ?",
"select x y 1 ; ?",
"select x y y",
"select x z select y z w",
"|| != x c0 < c1 x ; < c1 c0",
"|| != x c0 < x c1 ; < c0 c1",
"|| != x c0 <= c1 x ; <= c1 c0",
"|| != x c0 <= x c1 ; <= c0 c1",
"|| != x y || z == x y",
"|| && x y && x z",
"|| < c0 x < c1 x",
"|| < c1 x <= x c0 ; <= c1 c0",
"|| < x + y opt 0 c0 < y + x opt 0 c1 ; < 1 + c1 c0",
"|| < x + y opt 0 c0 <= + y opt 0 c1 x ; < c1 c0",
"|| < x c0 < c1 x ; < c1 c0",
"|| < x c0 < x c1",
"|| < x c0 <= c1 x ; <= c1 c0",
"|| < x y < y x",
"|| <= + x opt 0 c0 y <= + y opt 0 c1 x ; < + c0 c1 1",
"|| <= c0 x <= c1 x",
"|| <= x c0 <= c1 x ; <= c1 + c0 1",
"|| <= x c0 <= x c1",
"|| == x c0 < c1 x ; < c1 c0",
"|| == x c0 < x c1 ; < c0 c1",
"|| == x c0 <= c1 x ; <= c1 c0",
"|| == x c0 <= x c1 ; <= c0 c1",
"|| == x c1 != x c0 ; != c0 c1",
"|| == x y != x y",
"|| == x y < x y",
"|| == x y <= x y",
"|| == x y || z != x y",
"|| x ! x",
"|| x && x y",
"|| x && y || x z",
"|| x c0 ; == c0 0",
"|| x x",
"|| x || opt 0 y || opt 0 z || opt 0 w x",
"|| x || y && x z",
"|| y < x y ; ?",
"|| y < y x ; ?",
"|| || x y || z w",
