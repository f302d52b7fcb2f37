// generated by tools/gen_swizzles.py: every swizzle name, what it should select, and lists of them
#pragma once
#include "kinds.hpp"
namespace mc
{
#define MC_A(nm, k, a, b, c, d) struct A_##nm { static constexpr const char *name = #nm; static constexpr int n = k; static constexpr int idx[4] = { a, b, c, d }; \
	template <class V> static auto &get(V &v) { return v.nm; } template <class V> static constexpr bool exists = requires (V &v) { v.nm; }; };
	MC_A(x, 1, 0, 0, 0, 0)
	MC_A(y, 1, 1, 0, 0, 0)
	MC_A(z, 1, 2, 0, 0, 0)
	MC_A(w, 1, 3, 0, 0, 0)
	MC_A(xx, 2, 0, 0, 0, 0)
	MC_A(xy, 2, 0, 1, 0, 0)
	MC_A(xz, 2, 0, 2, 0, 0)
	MC_A(xw, 2, 0, 3, 0, 0)
	MC_A(yx, 2, 1, 0, 0, 0)
	MC_A(yy, 2, 1, 1, 0, 0)
	MC_A(yz, 2, 1, 2, 0, 0)
	MC_A(yw, 2, 1, 3, 0, 0)
	MC_A(zx, 2, 2, 0, 0, 0)
	MC_A(zy, 2, 2, 1, 0, 0)
	MC_A(zz, 2, 2, 2, 0, 0)
	MC_A(zw, 2, 2, 3, 0, 0)
	MC_A(wx, 2, 3, 0, 0, 0)
	MC_A(wy, 2, 3, 1, 0, 0)
	MC_A(wz, 2, 3, 2, 0, 0)
	MC_A(ww, 2, 3, 3, 0, 0)
	MC_A(xxx, 3, 0, 0, 0, 0)
	MC_A(xxy, 3, 0, 0, 1, 0)
	MC_A(xxz, 3, 0, 0, 2, 0)
	MC_A(xxw, 3, 0, 0, 3, 0)
	MC_A(xyx, 3, 0, 1, 0, 0)
	MC_A(xyy, 3, 0, 1, 1, 0)
	MC_A(xyz, 3, 0, 1, 2, 0)
	MC_A(xyw, 3, 0, 1, 3, 0)
	MC_A(xzx, 3, 0, 2, 0, 0)
	MC_A(xzy, 3, 0, 2, 1, 0)
	MC_A(xzz, 3, 0, 2, 2, 0)
	MC_A(xzw, 3, 0, 2, 3, 0)
	MC_A(xwx, 3, 0, 3, 0, 0)
	MC_A(xwy, 3, 0, 3, 1, 0)
	MC_A(xwz, 3, 0, 3, 2, 0)
	MC_A(xww, 3, 0, 3, 3, 0)
	MC_A(yxx, 3, 1, 0, 0, 0)
	MC_A(yxy, 3, 1, 0, 1, 0)
	MC_A(yxz, 3, 1, 0, 2, 0)
	MC_A(yxw, 3, 1, 0, 3, 0)
	MC_A(yyx, 3, 1, 1, 0, 0)
	MC_A(yyy, 3, 1, 1, 1, 0)
	MC_A(yyz, 3, 1, 1, 2, 0)
	MC_A(yyw, 3, 1, 1, 3, 0)
	MC_A(yzx, 3, 1, 2, 0, 0)
	MC_A(yzy, 3, 1, 2, 1, 0)
	MC_A(yzz, 3, 1, 2, 2, 0)
	MC_A(yzw, 3, 1, 2, 3, 0)
	MC_A(ywx, 3, 1, 3, 0, 0)
	MC_A(ywy, 3, 1, 3, 1, 0)
	MC_A(ywz, 3, 1, 3, 2, 0)
	MC_A(yww, 3, 1, 3, 3, 0)
	MC_A(zxx, 3, 2, 0, 0, 0)
	MC_A(zxy, 3, 2, 0, 1, 0)
	MC_A(zxz, 3, 2, 0, 2, 0)
	MC_A(zxw, 3, 2, 0, 3, 0)
	MC_A(zyx, 3, 2, 1, 0, 0)
	MC_A(zyy, 3, 2, 1, 1, 0)
	MC_A(zyz, 3, 2, 1, 2, 0)
	MC_A(zyw, 3, 2, 1, 3, 0)
	MC_A(zzx, 3, 2, 2, 0, 0)
	MC_A(zzy, 3, 2, 2, 1, 0)
	MC_A(zzz, 3, 2, 2, 2, 0)
	MC_A(zzw, 3, 2, 2, 3, 0)
	MC_A(zwx, 3, 2, 3, 0, 0)
	MC_A(zwy, 3, 2, 3, 1, 0)
	MC_A(zwz, 3, 2, 3, 2, 0)
	MC_A(zww, 3, 2, 3, 3, 0)
	MC_A(wxx, 3, 3, 0, 0, 0)
	MC_A(wxy, 3, 3, 0, 1, 0)
	MC_A(wxz, 3, 3, 0, 2, 0)
	MC_A(wxw, 3, 3, 0, 3, 0)
	MC_A(wyx, 3, 3, 1, 0, 0)
	MC_A(wyy, 3, 3, 1, 1, 0)
	MC_A(wyz, 3, 3, 1, 2, 0)
	MC_A(wyw, 3, 3, 1, 3, 0)
	MC_A(wzx, 3, 3, 2, 0, 0)
	MC_A(wzy, 3, 3, 2, 1, 0)
	MC_A(wzz, 3, 3, 2, 2, 0)
	MC_A(wzw, 3, 3, 2, 3, 0)
	MC_A(wwx, 3, 3, 3, 0, 0)
	MC_A(wwy, 3, 3, 3, 1, 0)
	MC_A(wwz, 3, 3, 3, 2, 0)
	MC_A(www, 3, 3, 3, 3, 0)
	MC_A(xxxx, 4, 0, 0, 0, 0)
	MC_A(xxxy, 4, 0, 0, 0, 1)
	MC_A(xxxz, 4, 0, 0, 0, 2)
	MC_A(xxxw, 4, 0, 0, 0, 3)
	MC_A(xxyx, 4, 0, 0, 1, 0)
	MC_A(xxyy, 4, 0, 0, 1, 1)
	MC_A(xxyz, 4, 0, 0, 1, 2)
	MC_A(xxyw, 4, 0, 0, 1, 3)
	MC_A(xxzx, 4, 0, 0, 2, 0)
	MC_A(xxzy, 4, 0, 0, 2, 1)
	MC_A(xxzz, 4, 0, 0, 2, 2)
	MC_A(xxzw, 4, 0, 0, 2, 3)
	MC_A(xxwx, 4, 0, 0, 3, 0)
	MC_A(xxwy, 4, 0, 0, 3, 1)
	MC_A(xxwz, 4, 0, 0, 3, 2)
	MC_A(xxww, 4, 0, 0, 3, 3)
	MC_A(xyxx, 4, 0, 1, 0, 0)
	MC_A(xyxy, 4, 0, 1, 0, 1)
	MC_A(xyxz, 4, 0, 1, 0, 2)
	MC_A(xyxw, 4, 0, 1, 0, 3)
	MC_A(xyyx, 4, 0, 1, 1, 0)
	MC_A(xyyy, 4, 0, 1, 1, 1)
	MC_A(xyyz, 4, 0, 1, 1, 2)
	MC_A(xyyw, 4, 0, 1, 1, 3)
	MC_A(xyzx, 4, 0, 1, 2, 0)
	MC_A(xyzy, 4, 0, 1, 2, 1)
	MC_A(xyzz, 4, 0, 1, 2, 2)
	MC_A(xyzw, 4, 0, 1, 2, 3)
	MC_A(xywx, 4, 0, 1, 3, 0)
	MC_A(xywy, 4, 0, 1, 3, 1)
	MC_A(xywz, 4, 0, 1, 3, 2)
	MC_A(xyww, 4, 0, 1, 3, 3)
	MC_A(xzxx, 4, 0, 2, 0, 0)
	MC_A(xzxy, 4, 0, 2, 0, 1)
	MC_A(xzxz, 4, 0, 2, 0, 2)
	MC_A(xzxw, 4, 0, 2, 0, 3)
	MC_A(xzyx, 4, 0, 2, 1, 0)
	MC_A(xzyy, 4, 0, 2, 1, 1)
	MC_A(xzyz, 4, 0, 2, 1, 2)
	MC_A(xzyw, 4, 0, 2, 1, 3)
	MC_A(xzzx, 4, 0, 2, 2, 0)
	MC_A(xzzy, 4, 0, 2, 2, 1)
	MC_A(xzzz, 4, 0, 2, 2, 2)
	MC_A(xzzw, 4, 0, 2, 2, 3)
	MC_A(xzwx, 4, 0, 2, 3, 0)
	MC_A(xzwy, 4, 0, 2, 3, 1)
	MC_A(xzwz, 4, 0, 2, 3, 2)
	MC_A(xzww, 4, 0, 2, 3, 3)
	MC_A(xwxx, 4, 0, 3, 0, 0)
	MC_A(xwxy, 4, 0, 3, 0, 1)
	MC_A(xwxz, 4, 0, 3, 0, 2)
	MC_A(xwxw, 4, 0, 3, 0, 3)
	MC_A(xwyx, 4, 0, 3, 1, 0)
	MC_A(xwyy, 4, 0, 3, 1, 1)
	MC_A(xwyz, 4, 0, 3, 1, 2)
	MC_A(xwyw, 4, 0, 3, 1, 3)
	MC_A(xwzx, 4, 0, 3, 2, 0)
	MC_A(xwzy, 4, 0, 3, 2, 1)
	MC_A(xwzz, 4, 0, 3, 2, 2)
	MC_A(xwzw, 4, 0, 3, 2, 3)
	MC_A(xwwx, 4, 0, 3, 3, 0)
	MC_A(xwwy, 4, 0, 3, 3, 1)
	MC_A(xwwz, 4, 0, 3, 3, 2)
	MC_A(xwww, 4, 0, 3, 3, 3)
	MC_A(yxxx, 4, 1, 0, 0, 0)
	MC_A(yxxy, 4, 1, 0, 0, 1)
	MC_A(yxxz, 4, 1, 0, 0, 2)
	MC_A(yxxw, 4, 1, 0, 0, 3)
	MC_A(yxyx, 4, 1, 0, 1, 0)
	MC_A(yxyy, 4, 1, 0, 1, 1)
	MC_A(yxyz, 4, 1, 0, 1, 2)
	MC_A(yxyw, 4, 1, 0, 1, 3)
	MC_A(yxzx, 4, 1, 0, 2, 0)
	MC_A(yxzy, 4, 1, 0, 2, 1)
	MC_A(yxzz, 4, 1, 0, 2, 2)
	MC_A(yxzw, 4, 1, 0, 2, 3)
	MC_A(yxwx, 4, 1, 0, 3, 0)
	MC_A(yxwy, 4, 1, 0, 3, 1)
	MC_A(yxwz, 4, 1, 0, 3, 2)
	MC_A(yxww, 4, 1, 0, 3, 3)
	MC_A(yyxx, 4, 1, 1, 0, 0)
	MC_A(yyxy, 4, 1, 1, 0, 1)
	MC_A(yyxz, 4, 1, 1, 0, 2)
	MC_A(yyxw, 4, 1, 1, 0, 3)
	MC_A(yyyx, 4, 1, 1, 1, 0)
	MC_A(yyyy, 4, 1, 1, 1, 1)
	MC_A(yyyz, 4, 1, 1, 1, 2)
	MC_A(yyyw, 4, 1, 1, 1, 3)
	MC_A(yyzx, 4, 1, 1, 2, 0)
	MC_A(yyzy, 4, 1, 1, 2, 1)
	MC_A(yyzz, 4, 1, 1, 2, 2)
	MC_A(yyzw, 4, 1, 1, 2, 3)
	MC_A(yywx, 4, 1, 1, 3, 0)
	MC_A(yywy, 4, 1, 1, 3, 1)
	MC_A(yywz, 4, 1, 1, 3, 2)
	MC_A(yyww, 4, 1, 1, 3, 3)
	MC_A(yzxx, 4, 1, 2, 0, 0)
	MC_A(yzxy, 4, 1, 2, 0, 1)
	MC_A(yzxz, 4, 1, 2, 0, 2)
	MC_A(yzxw, 4, 1, 2, 0, 3)
	MC_A(yzyx, 4, 1, 2, 1, 0)
	MC_A(yzyy, 4, 1, 2, 1, 1)
	MC_A(yzyz, 4, 1, 2, 1, 2)
	MC_A(yzyw, 4, 1, 2, 1, 3)
	MC_A(yzzx, 4, 1, 2, 2, 0)
	MC_A(yzzy, 4, 1, 2, 2, 1)
	MC_A(yzzz, 4, 1, 2, 2, 2)
	MC_A(yzzw, 4, 1, 2, 2, 3)
	MC_A(yzwx, 4, 1, 2, 3, 0)
	MC_A(yzwy, 4, 1, 2, 3, 1)
	MC_A(yzwz, 4, 1, 2, 3, 2)
	MC_A(yzww, 4, 1, 2, 3, 3)
	MC_A(ywxx, 4, 1, 3, 0, 0)
	MC_A(ywxy, 4, 1, 3, 0, 1)
	MC_A(ywxz, 4, 1, 3, 0, 2)
	MC_A(ywxw, 4, 1, 3, 0, 3)
	MC_A(ywyx, 4, 1, 3, 1, 0)
	MC_A(ywyy, 4, 1, 3, 1, 1)
	MC_A(ywyz, 4, 1, 3, 1, 2)
	MC_A(ywyw, 4, 1, 3, 1, 3)
	MC_A(ywzx, 4, 1, 3, 2, 0)
	MC_A(ywzy, 4, 1, 3, 2, 1)
	MC_A(ywzz, 4, 1, 3, 2, 2)
	MC_A(ywzw, 4, 1, 3, 2, 3)
	MC_A(ywwx, 4, 1, 3, 3, 0)
	MC_A(ywwy, 4, 1, 3, 3, 1)
	MC_A(ywwz, 4, 1, 3, 3, 2)
	MC_A(ywww, 4, 1, 3, 3, 3)
	MC_A(zxxx, 4, 2, 0, 0, 0)
	MC_A(zxxy, 4, 2, 0, 0, 1)
	MC_A(zxxz, 4, 2, 0, 0, 2)
	MC_A(zxxw, 4, 2, 0, 0, 3)
	MC_A(zxyx, 4, 2, 0, 1, 0)
	MC_A(zxyy, 4, 2, 0, 1, 1)
	MC_A(zxyz, 4, 2, 0, 1, 2)
	MC_A(zxyw, 4, 2, 0, 1, 3)
	MC_A(zxzx, 4, 2, 0, 2, 0)
	MC_A(zxzy, 4, 2, 0, 2, 1)
	MC_A(zxzz, 4, 2, 0, 2, 2)
	MC_A(zxzw, 4, 2, 0, 2, 3)
	MC_A(zxwx, 4, 2, 0, 3, 0)
	MC_A(zxwy, 4, 2, 0, 3, 1)
	MC_A(zxwz, 4, 2, 0, 3, 2)
	MC_A(zxww, 4, 2, 0, 3, 3)
	MC_A(zyxx, 4, 2, 1, 0, 0)
	MC_A(zyxy, 4, 2, 1, 0, 1)
	MC_A(zyxz, 4, 2, 1, 0, 2)
	MC_A(zyxw, 4, 2, 1, 0, 3)
	MC_A(zyyx, 4, 2, 1, 1, 0)
	MC_A(zyyy, 4, 2, 1, 1, 1)
	MC_A(zyyz, 4, 2, 1, 1, 2)
	MC_A(zyyw, 4, 2, 1, 1, 3)
	MC_A(zyzx, 4, 2, 1, 2, 0)
	MC_A(zyzy, 4, 2, 1, 2, 1)
	MC_A(zyzz, 4, 2, 1, 2, 2)
	MC_A(zyzw, 4, 2, 1, 2, 3)
	MC_A(zywx, 4, 2, 1, 3, 0)
	MC_A(zywy, 4, 2, 1, 3, 1)
	MC_A(zywz, 4, 2, 1, 3, 2)
	MC_A(zyww, 4, 2, 1, 3, 3)
	MC_A(zzxx, 4, 2, 2, 0, 0)
	MC_A(zzxy, 4, 2, 2, 0, 1)
	MC_A(zzxz, 4, 2, 2, 0, 2)
	MC_A(zzxw, 4, 2, 2, 0, 3)
	MC_A(zzyx, 4, 2, 2, 1, 0)
	MC_A(zzyy, 4, 2, 2, 1, 1)
	MC_A(zzyz, 4, 2, 2, 1, 2)
	MC_A(zzyw, 4, 2, 2, 1, 3)
	MC_A(zzzx, 4, 2, 2, 2, 0)
	MC_A(zzzy, 4, 2, 2, 2, 1)
	MC_A(zzzz, 4, 2, 2, 2, 2)
	MC_A(zzzw, 4, 2, 2, 2, 3)
	MC_A(zzwx, 4, 2, 2, 3, 0)
	MC_A(zzwy, 4, 2, 2, 3, 1)
	MC_A(zzwz, 4, 2, 2, 3, 2)
	MC_A(zzww, 4, 2, 2, 3, 3)
	MC_A(zwxx, 4, 2, 3, 0, 0)
	MC_A(zwxy, 4, 2, 3, 0, 1)
	MC_A(zwxz, 4, 2, 3, 0, 2)
	MC_A(zwxw, 4, 2, 3, 0, 3)
	MC_A(zwyx, 4, 2, 3, 1, 0)
	MC_A(zwyy, 4, 2, 3, 1, 1)
	MC_A(zwyz, 4, 2, 3, 1, 2)
	MC_A(zwyw, 4, 2, 3, 1, 3)
	MC_A(zwzx, 4, 2, 3, 2, 0)
	MC_A(zwzy, 4, 2, 3, 2, 1)
	MC_A(zwzz, 4, 2, 3, 2, 2)
	MC_A(zwzw, 4, 2, 3, 2, 3)
	MC_A(zwwx, 4, 2, 3, 3, 0)
	MC_A(zwwy, 4, 2, 3, 3, 1)
	MC_A(zwwz, 4, 2, 3, 3, 2)
	MC_A(zwww, 4, 2, 3, 3, 3)
	MC_A(wxxx, 4, 3, 0, 0, 0)
	MC_A(wxxy, 4, 3, 0, 0, 1)
	MC_A(wxxz, 4, 3, 0, 0, 2)
	MC_A(wxxw, 4, 3, 0, 0, 3)
	MC_A(wxyx, 4, 3, 0, 1, 0)
	MC_A(wxyy, 4, 3, 0, 1, 1)
	MC_A(wxyz, 4, 3, 0, 1, 2)
	MC_A(wxyw, 4, 3, 0, 1, 3)
	MC_A(wxzx, 4, 3, 0, 2, 0)
	MC_A(wxzy, 4, 3, 0, 2, 1)
	MC_A(wxzz, 4, 3, 0, 2, 2)
	MC_A(wxzw, 4, 3, 0, 2, 3)
	MC_A(wxwx, 4, 3, 0, 3, 0)
	MC_A(wxwy, 4, 3, 0, 3, 1)
	MC_A(wxwz, 4, 3, 0, 3, 2)
	MC_A(wxww, 4, 3, 0, 3, 3)
	MC_A(wyxx, 4, 3, 1, 0, 0)
	MC_A(wyxy, 4, 3, 1, 0, 1)
	MC_A(wyxz, 4, 3, 1, 0, 2)
	MC_A(wyxw, 4, 3, 1, 0, 3)
	MC_A(wyyx, 4, 3, 1, 1, 0)
	MC_A(wyyy, 4, 3, 1, 1, 1)
	MC_A(wyyz, 4, 3, 1, 1, 2)
	MC_A(wyyw, 4, 3, 1, 1, 3)
	MC_A(wyzx, 4, 3, 1, 2, 0)
	MC_A(wyzy, 4, 3, 1, 2, 1)
	MC_A(wyzz, 4, 3, 1, 2, 2)
	MC_A(wyzw, 4, 3, 1, 2, 3)
	MC_A(wywx, 4, 3, 1, 3, 0)
	MC_A(wywy, 4, 3, 1, 3, 1)
	MC_A(wywz, 4, 3, 1, 3, 2)
	MC_A(wyww, 4, 3, 1, 3, 3)
	MC_A(wzxx, 4, 3, 2, 0, 0)
	MC_A(wzxy, 4, 3, 2, 0, 1)
	MC_A(wzxz, 4, 3, 2, 0, 2)
	MC_A(wzxw, 4, 3, 2, 0, 3)
	MC_A(wzyx, 4, 3, 2, 1, 0)
	MC_A(wzyy, 4, 3, 2, 1, 1)
	MC_A(wzyz, 4, 3, 2, 1, 2)
	MC_A(wzyw, 4, 3, 2, 1, 3)
	MC_A(wzzx, 4, 3, 2, 2, 0)
	MC_A(wzzy, 4, 3, 2, 2, 1)
	MC_A(wzzz, 4, 3, 2, 2, 2)
	MC_A(wzzw, 4, 3, 2, 2, 3)
	MC_A(wzwx, 4, 3, 2, 3, 0)
	MC_A(wzwy, 4, 3, 2, 3, 1)
	MC_A(wzwz, 4, 3, 2, 3, 2)
	MC_A(wzww, 4, 3, 2, 3, 3)
	MC_A(wwxx, 4, 3, 3, 0, 0)
	MC_A(wwxy, 4, 3, 3, 0, 1)
	MC_A(wwxz, 4, 3, 3, 0, 2)
	MC_A(wwxw, 4, 3, 3, 0, 3)
	MC_A(wwyx, 4, 3, 3, 1, 0)
	MC_A(wwyy, 4, 3, 3, 1, 1)
	MC_A(wwyz, 4, 3, 3, 1, 2)
	MC_A(wwyw, 4, 3, 3, 1, 3)
	MC_A(wwzx, 4, 3, 3, 2, 0)
	MC_A(wwzy, 4, 3, 3, 2, 1)
	MC_A(wwzz, 4, 3, 3, 2, 2)
	MC_A(wwzw, 4, 3, 3, 2, 3)
	MC_A(wwwx, 4, 3, 3, 3, 0)
	MC_A(wwwy, 4, 3, 3, 3, 1)
	MC_A(wwwz, 4, 3, 3, 3, 2)
	MC_A(wwww, 4, 3, 3, 3, 3)
#undef MC_A
	// Swz<S, k>: all names of k letters over S components; USwz: those with distinct letters
	template <int S, int K> struct Swz_; template <int S, int K> struct USwz_ { using type = types<>; };
	template <> struct Swz_<1, 1> { using type = types<A_x>; };
	template <> struct USwz_<1, 1> { using type = types<A_x>; };
	template <> struct Swz_<1, 2> { using type = types<A_xx>; };
	template <> struct Swz_<1, 3> { using type = types<A_xxx>; };
	template <> struct Swz_<1, 4> { using type = types<A_xxxx>; };
	template <> struct Swz_<2, 1> { using type = types<A_x, A_y>; };
	template <> struct USwz_<2, 1> { using type = types<A_x, A_y>; };
	template <> struct Swz_<2, 2> { using type = types<A_xx, A_xy, A_yx, A_yy>; };
	template <> struct USwz_<2, 2> { using type = types<A_xy, A_yx>; };
	template <> struct Swz_<2, 3> { using type = types<A_xxx, A_xxy, A_xyx, A_xyy, A_yxx, A_yxy, A_yyx, A_yyy>; };
	template <> struct Swz_<2, 4> { using type = types<A_xxxx, A_xxxy, A_xxyx, A_xxyy, A_xyxx, A_xyxy, A_xyyx, A_xyyy, A_yxxx, A_yxxy, A_yxyx, A_yxyy, A_yyxx, A_yyxy, A_yyyx, A_yyyy>; };
	template <> struct Swz_<3, 1> { using type = types<A_x, A_y, A_z>; };
	template <> struct USwz_<3, 1> { using type = types<A_x, A_y, A_z>; };
	template <> struct Swz_<3, 2> { using type = types<A_xx, A_xy, A_xz, A_yx, A_yy, A_yz, A_zx, A_zy, A_zz>; };
	template <> struct USwz_<3, 2> { using type = types<A_xy, A_xz, A_yx, A_yz, A_zx, A_zy>; };
	template <> struct Swz_<3, 3> { using type = types<A_xxx, A_xxy, A_xxz, A_xyx, A_xyy, A_xyz, A_xzx, A_xzy, A_xzz, A_yxx, A_yxy, A_yxz, A_yyx, A_yyy, A_yyz, A_yzx, A_yzy, A_yzz, A_zxx, A_zxy, A_zxz, A_zyx, A_zyy, A_zyz, A_zzx, A_zzy, A_zzz>; };
	template <> struct USwz_<3, 3> { using type = types<A_xyz, A_xzy, A_yxz, A_yzx, A_zxy, A_zyx>; };
	template <> struct Swz_<3, 4> { using type = types<A_xxxx, A_xxxy, A_xxxz, A_xxyx, A_xxyy, A_xxyz, A_xxzx, A_xxzy, A_xxzz, A_xyxx, A_xyxy, A_xyxz, A_xyyx, A_xyyy, A_xyyz, A_xyzx, A_xyzy, A_xyzz, A_xzxx, A_xzxy, A_xzxz, A_xzyx, A_xzyy, A_xzyz, A_xzzx, A_xzzy, A_xzzz, A_yxxx, A_yxxy, A_yxxz, A_yxyx, A_yxyy, A_yxyz, A_yxzx, A_yxzy, A_yxzz, A_yyxx, A_yyxy, A_yyxz, A_yyyx, A_yyyy, A_yyyz, A_yyzx, A_yyzy, A_yyzz, A_yzxx, A_yzxy, A_yzxz, A_yzyx, A_yzyy, A_yzyz, A_yzzx, A_yzzy, A_yzzz, A_zxxx, A_zxxy, A_zxxz, A_zxyx, A_zxyy, A_zxyz, A_zxzx, A_zxzy, A_zxzz, A_zyxx, A_zyxy, A_zyxz, A_zyyx, A_zyyy, A_zyyz, A_zyzx, A_zyzy, A_zyzz, A_zzxx, A_zzxy, A_zzxz, A_zzyx, A_zzyy, A_zzyz, A_zzzx, A_zzzy, A_zzzz>; };
	template <> struct Swz_<4, 1> { using type = types<A_x, A_y, A_z, A_w>; };
	template <> struct USwz_<4, 1> { using type = types<A_x, A_y, A_z, A_w>; };
	template <> struct Swz_<4, 2> { using type = types<A_xx, A_xy, A_xz, A_xw, A_yx, A_yy, A_yz, A_yw, A_zx, A_zy, A_zz, A_zw, A_wx, A_wy, A_wz, A_ww>; };
	template <> struct USwz_<4, 2> { using type = types<A_xy, A_xz, A_xw, A_yx, A_yz, A_yw, A_zx, A_zy, A_zw, A_wx, A_wy, A_wz>; };
	template <> struct Swz_<4, 3> { using type = types<A_xxx, A_xxy, A_xxz, A_xxw, A_xyx, A_xyy, A_xyz, A_xyw, A_xzx, A_xzy, A_xzz, A_xzw, A_xwx, A_xwy, A_xwz, A_xww, A_yxx, A_yxy, A_yxz, A_yxw, A_yyx, A_yyy, A_yyz, A_yyw, A_yzx, A_yzy, A_yzz, A_yzw, A_ywx, A_ywy, A_ywz, A_yww, A_zxx, A_zxy, A_zxz, A_zxw, A_zyx, A_zyy, A_zyz, A_zyw, A_zzx, A_zzy, A_zzz, A_zzw, A_zwx, A_zwy, A_zwz, A_zww, A_wxx, A_wxy, A_wxz, A_wxw, A_wyx, A_wyy, A_wyz, A_wyw, A_wzx, A_wzy, A_wzz, A_wzw, A_wwx, A_wwy, A_wwz, A_www>; };
	template <> struct USwz_<4, 3> { using type = types<A_xyz, A_xyw, A_xzy, A_xzw, A_xwy, A_xwz, A_yxz, A_yxw, A_yzx, A_yzw, A_ywx, A_ywz, A_zxy, A_zxw, A_zyx, A_zyw, A_zwx, A_zwy, A_wxy, A_wxz, A_wyx, A_wyz, A_wzx, A_wzy>; };
	template <> struct Swz_<4, 4> { using type = types<A_xxxx, A_xxxy, A_xxxz, A_xxxw, A_xxyx, A_xxyy, A_xxyz, A_xxyw, A_xxzx, A_xxzy, A_xxzz, A_xxzw, A_xxwx, A_xxwy, A_xxwz, A_xxww, A_xyxx, A_xyxy, A_xyxz, A_xyxw, A_xyyx, A_xyyy, A_xyyz, A_xyyw, A_xyzx, A_xyzy, A_xyzz, A_xyzw, A_xywx, A_xywy, A_xywz, A_xyww, A_xzxx, A_xzxy, A_xzxz, A_xzxw, A_xzyx, A_xzyy, A_xzyz, A_xzyw, A_xzzx, A_xzzy, A_xzzz, A_xzzw, A_xzwx, A_xzwy, A_xzwz, A_xzww, A_xwxx, A_xwxy, A_xwxz, A_xwxw, A_xwyx, A_xwyy, A_xwyz, A_xwyw, A_xwzx, A_xwzy, A_xwzz, A_xwzw, A_xwwx, A_xwwy, A_xwwz, A_xwww, A_yxxx, A_yxxy, A_yxxz, A_yxxw, A_yxyx, A_yxyy, A_yxyz, A_yxyw, A_yxzx, A_yxzy, A_yxzz, A_yxzw, A_yxwx, A_yxwy, A_yxwz, A_yxww, A_yyxx, A_yyxy, A_yyxz, A_yyxw, A_yyyx, A_yyyy, A_yyyz, A_yyyw, A_yyzx, A_yyzy, A_yyzz, A_yyzw, A_yywx, A_yywy, A_yywz, A_yyww, A_yzxx, A_yzxy, A_yzxz, A_yzxw, A_yzyx, A_yzyy, A_yzyz, A_yzyw, A_yzzx, A_yzzy, A_yzzz, A_yzzw, A_yzwx, A_yzwy, A_yzwz, A_yzww, A_ywxx, A_ywxy, A_ywxz, A_ywxw, A_ywyx, A_ywyy, A_ywyz, A_ywyw, A_ywzx, A_ywzy, A_ywzz, A_ywzw, A_ywwx, A_ywwy, A_ywwz, A_ywww, A_zxxx, A_zxxy, A_zxxz, A_zxxw, A_zxyx, A_zxyy, A_zxyz, A_zxyw, A_zxzx, A_zxzy, A_zxzz, A_zxzw, A_zxwx, A_zxwy, A_zxwz, A_zxww, A_zyxx, A_zyxy, A_zyxz, A_zyxw, A_zyyx, A_zyyy, A_zyyz, A_zyyw, A_zyzx, A_zyzy, A_zyzz, A_zyzw, A_zywx, A_zywy, A_zywz, A_zyww, A_zzxx, A_zzxy, A_zzxz, A_zzxw, A_zzyx, A_zzyy, A_zzyz, A_zzyw, A_zzzx, A_zzzy, A_zzzz, A_zzzw, A_zzwx, A_zzwy, A_zzwz, A_zzww, A_zwxx, A_zwxy, A_zwxz, A_zwxw, A_zwyx, A_zwyy, A_zwyz, A_zwyw, A_zwzx, A_zwzy, A_zwzz, A_zwzw, A_zwwx, A_zwwy, A_zwwz, A_zwww, A_wxxx, A_wxxy, A_wxxz, A_wxxw, A_wxyx, A_wxyy, A_wxyz, A_wxyw, A_wxzx, A_wxzy, A_wxzz, A_wxzw, A_wxwx, A_wxwy, A_wxwz, A_wxww, A_wyxx, A_wyxy, A_wyxz, A_wyxw, A_wyyx, A_wyyy, A_wyyz, A_wyyw, A_wyzx, A_wyzy, A_wyzz, A_wyzw, A_wywx, A_wywy, A_wywz, A_wyww, A_wzxx, A_wzxy, A_wzxz, A_wzxw, A_wzyx, A_wzyy, A_wzyz, A_wzyw, A_wzzx, A_wzzy, A_wzzz, A_wzzw, A_wzwx, A_wzwy, A_wzwz, A_wzww, A_wwxx, A_wwxy, A_wwxz, A_wwxw, A_wwyx, A_wwyy, A_wwyz, A_wwyw, A_wwzx, A_wwzy, A_wwzz, A_wwzw, A_wwwx, A_wwwy, A_wwwz, A_wwww>; };
	template <> struct USwz_<4, 4> { using type = types<A_xyzw, A_xywz, A_xzyw, A_xzwy, A_xwyz, A_xwzy, A_yxzw, A_yxwz, A_yzxw, A_yzwx, A_ywxz, A_ywzx, A_zxyw, A_zxwy, A_zyxw, A_zywx, A_zwxy, A_zwyx, A_wxyz, A_wxzy, A_wyxz, A_wyzx, A_wzxy, A_wzyx>; };
	template <int S, int K> using Swz = typename Swz_<S, K>::type; template <int S, int K> using USwz = typename USwz_<S, K>::type;
}
