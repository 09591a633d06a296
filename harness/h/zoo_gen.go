// Code generated by gen/zoo.py; DO NOT EDIT.
package h

type (
	Z0a struct {
		a    int `json:"a"`
		D    int `json:"b"`
		*Z0b `json:"c,omitempty"`
		B    int `json:"B"`
		A    int `json:"-"`
	}
	Z0b struct {
		Z0e  `json:"c,omitempty"`
		B    int `json:"c"`
		C    int `json:"x'y"`
		*Z0c `json:"c,omitempty"`
		ZN0  `json:"b,omitempty"`
	}
	Z0c struct {
		*Z0d
		a int `json:"a"`
	}
	Z0d struct {
	}
	Z0e struct {
		*z0f
		D int `json:"a,omitempty"`
		B int `json:"x'y"`
	}
	z0f struct {
		zn0
		D int `json:",string"`
	}
	ZN0 int
	zn0 int
)
type (
	Z1a struct {
		ZN1
		Z1g
		A int `json:"a<"`
		Z1b
	}
	Z1b struct {
		Z1c `json:"a"`
		z1e
	}
	Z1c struct {
		Z1d
		Ab int `json:"B"`
		a  int
	}
	Z1d struct {
		Ab int
		A  int `json:"a,omitempty"`
		B  int `json:"x'y"`
	}
	z1e struct {
		Ab  int
		Z1d `json:"a"`
		A   int `json:"a<"`
		*Z1f
	}
	Z1f struct {
		zn1 `json:"a"`
		D   int `json:",omitempty"`
	}
	Z1g struct {
		C int `json:"a,omitempty"`
	}
	ZN1 int
	zn1 int
)
type (
	Z3a struct {
		z3b
		a int `json:"a"`
		A int `json:"b"`
		D int `json:"c,omitempty,string"`
	}
	z3b struct {
		A   int `json:"B,foo"`
		zn3 `json:"a"`
		*Z3c
		B  int `json:"b"`
		Ab int `json:",string"`
	}
	Z3c struct {
		*Z3d
	}
	Z3d struct {
		D int
	}
	zn3 int
)
type (
	Z5a struct {
		D int
		Z5b
		*z5e
	}
	Z5b struct {
		A  int `json:"x'y"`
		Ab int
		a  int
		z5d
		*z5c
	}
	z5c struct {
		ZN5 `json:"b,omitempty"`
		*z5e
		B int `json:"A"`
		*z5d
	}
	z5d struct {
	}
	z5e struct {
		A int `json:"A"`
	}
	ZN5 int
)
type (
	Z7a struct {
		*Z7b `json:"c,omitempty"`
		A    int `json:"a"`
		ZN7
		Z7c `json:"c,omitempty"`
	}
	Z7b struct {
		B int `json:",string"`
		a int `json:"b"`
		*Z7c
		C int `json:"c"`
		*Z7d
	}
	Z7c struct {
		A int
		C int `json:"-,omitempty"`
		D int `json:",omitempty"`
	}
	Z7d struct {
		a    int `json:"a"`
		B    int `json:",omitempty"`
		*Z7e `json:"c,omitempty"`
	}
	Z7e struct {
	}
	ZN7 int
)
type (
	Z10a struct {
		A     int `json:"B"`
		*Z10c `json:"a"`
		Z10b
	}
	Z10b struct {
		a    int `json:"b"`
		zn10 `json:"b,omitempty"`
	}
	Z10c struct {
		*Z10d
	}
	Z10d struct {
		C int `json:"é"`
		D int `json:"é"`
	}
	zn10 int
)
type (
	Z12a struct {
		A int `json:"b,string"`
		Z12b
		Z12c
	}
	Z12b struct {
		*z12e
		*Z12c
	}
	Z12c struct {
		B     int `json:"a,omitempty"`
		*Z12d `json:"a"`
		A     int `json:"ab"`
	}
	Z12d struct {
		a int `json:"a"`
		A int `json:"-"`
	}
	z12e struct {
		A int
	}
)
type (
	Z14a struct {
		*Z14g
		ZN14
		A int `json:"B,foo"`
		Z14b
	}
	Z14b struct {
		*z14f
		B int `json:"A"`
		Z14c
	}
	Z14c struct {
		B int `json:"ab"`
		a int
		Z14d
		*Z14e `json:"a"`
	}
	Z14d struct {
	}
	Z14e struct {
		Ab int `json:"c,omitempty,string"`
		zn14
		B int `json:"b"`
	}
	z14f struct {
		A int
		D int `json:"c,omitempty,string"`
	}
	Z14g struct {
	}
	ZN14 int
	zn14 int
)
type (
	Z19a struct {
		*Z19b
		B    int
		Z19c `json:"a"`
	}
	Z19b struct {
		*Z19d `json:"c,omitempty"`
		*Z19c
		Ab int `json:"a"`
	}
	Z19c struct {
		zn19
		C int `json:"a,omitempty"`
	}
	Z19d struct {
		Z19e
		D  int `json:"B,foo"`
		Ab int `json:"B"`
	}
	Z19e struct {
		ZN19 `json:"a"`
		*Z19a
	}
	ZN19 int
	zn19 int
)
type (
	Z20a struct {
		ZN20 `json:"b,omitempty"`
		Z20b
		C int
	}
	Z20b struct {
	}
	ZN20 int
)
type (
	Z21a struct {
		Z21b
		z21e
		D int `json:"B,foo"`
	}
	Z21b struct {
		*z21c
	}
	z21c struct {
		a int `json:"a"`
		*Z21d
	}
	Z21d struct {
	}
	z21e struct {
		C int `json:"-,"`
		*Z21f
		B int `json:"a<"`
	}
	Z21f struct {
	}
)
type (
	Z22a struct {
		B int `json:"c"`
		Z22b
		Ab int `json:"B,foo"`
		*Z22f
	}
	Z22b struct {
		Ab int `json:"c"`
		*Z22c
		C int `json:"-,omitempty"`
		*Z22d
	}
	Z22c struct {
		Ab int `json:"a"`
	}
	Z22d struct {
		ZN22 `json:"a"`
		a    int
		A    int `json:"ab"`
		Z22e
	}
	Z22e struct {
		B int
	}
	Z22f struct {
		a int `json:"b"`
		D int `json:"B,foo"`
	}
	ZN22 int
)
type (
	Z23a struct {
		D    int `json:",string"`
		z23i `json:"c,omitempty"`
		B    int `json:"-"`
		*Z23b
	}
	Z23b struct {
		*Z23f
		B int `json:"a,omitempty"`
		a int `json:"a"`
		z23c
		ZN23 `json:"a"`
	}
	z23c struct {
		Z23e
		ZN23
		Z23d
	}
	Z23d struct {
		C int `json:"-"`
		B int
	}
	Z23e struct {
		ZN23
	}
	Z23f struct {
		Z23h
		*Z23a
		Z23g
	}
	Z23g struct {
		Ab int
		D  int
		*Z23a
		B int `json:"c,omitempty,string"`
	}
	Z23h struct {
		Ab   int `json:",string"`
		ZN23 `json:"a"`
		a    int `json:"b"`
	}
	z23i struct {
	}
	ZN23 int
)
type (
	Z24a struct {
		zn24 `json:"b,omitempty"`
		Ab   int `json:"B"`
		Z24b `json:"a"`
	}
	Z24b struct {
		z24f
		*Z24c
		Ab int `json:"c,omitempty,string"`
	}
	Z24c struct {
		Z24e
		Z24d `json:"c,omitempty"`
		D    int `json:"a<"`
	}
	Z24d struct {
		ZN24 `json:"b,omitempty"`
	}
	Z24e struct {
		*Z24a
		a int
		B int `json:",omitempty"`
	}
	z24f struct {
		Z24h `json:"c,omitempty"`
		a    int
		*Z24g
	}
	Z24g struct {
	}
	Z24h struct {
	}
	ZN24 int
	zn24 int
)
type (
	Z26a struct {
		D int `json:"é"`
		Z26b
		Z26e
		A int `json:"a<"`
	}
	Z26b struct {
		Ab    int
		*Z26c `json:"c,omitempty"`
		ZN26  `json:"b,omitempty"`
	}
	Z26c struct {
		*Z26e
		*Z26d `json:"c,omitempty"`
		C     int `json:"A"`
	}
	Z26d struct {
		C int `json:"B,foo"`
		a int `json:"a"`
		B int `json:"A"`
	}
	Z26e struct {
		A  int `json:"c"`
		Ab int `json:"x'y"`
	}
	ZN26 int
)
type (
	Z27a struct {
		Z27e
		Z27b
		*Z27d `json:"a"`
		C     int `json:",string"`
		a     int `json:"b"`
	}
	Z27b struct {
		ZN27 `json:"b,omitempty"`
		*Z27c
		Ab int `json:"x'y"`
	}
	Z27c struct {
		ZN27 `json:"a"`
		Z27d `json:"c,omitempty"`
		D    int `json:"-,"`
	}
	Z27d struct {
	}
	Z27e struct {
		z27f
	}
	z27f struct {
		Ab int
		*Z27g
		D int `json:",string"`
	}
	Z27g struct {
		ZN27
		a int
	}
	ZN27 int
)
type (
	Z28a struct {
		Z28e
		Z28b `json:"c,omitempty"`
		a    int
		C    int `json:"a"`
	}
	Z28b struct {
		Z28c
		zn28 `json:"a"`
		D    int
	}
	Z28c struct {
		*Z28d
	}
	Z28d struct {
		a  int `json:"a"`
		Ab int `json:"A"`
		C  int `json:"A"`
	}
	Z28e struct {
		B int `json:"c"`
		*Z28f
		*Z28a
	}
	Z28f struct {
		z28g  `json:"a"`
		*Z28d `json:"c,omitempty"`
	}
	z28g struct {
		B    int `json:"x'y"`
		Ab   int `json:",omitempty"`
		ZN28 `json:"a"`
	}
	ZN28 int
	zn28 int
)
type (
	Z30a struct {
		*Z30b
		Z30d
		zn30 `json:"a"`
		Ab   int `json:"B"`
		B    int `json:"a<"`
	}
	Z30b struct {
		Z30c
	}
	Z30c struct {
		zn30 `json:"b,omitempty"`
	}
	Z30d struct {
		*Z30e `json:"c,omitempty"`
	}
	Z30e struct {
		A int
	}
	zn30 int
)
type (
	Z31a struct {
		A    int `json:"-"`
		Ab   int `json:"B,foo"`
		Z31b `json:"c,omitempty"`
	}
	Z31b struct {
		*Z31a
		Z31c
	}
	Z31c struct {
		ZN31
	}
	ZN31 int
)
type (
	Z32a struct {
		Z32b
		a  int
		D  int `json:"-,string"`
		Ab int `json:"B,foo"`
	}
	Z32b struct {
		Z32c
		B int `json:"-,string"`
		*Z32d
		a int `json:"a"`
		A int
		Z32f
	}
	Z32c struct {
		D int `json:"-,string"`
		*Z32a
	}
	Z32d struct {
		*Z32e `json:"c,omitempty"`
		B     int `json:"a<"`
		zn32  `json:"a"`
	}
	Z32e struct {
	}
	Z32f struct {
		Z32g
	}
	Z32g struct {
		D  int `json:",omitempty"`
		A  int `json:"ab"`
		Ab int `json:"a<"`
	}
	zn32 int
)
type (
	Z34a struct {
		Z34b `json:"a"`
		B    int `json:",omitempty"`
		Ab   int `json:",string"`
	}
	Z34b struct {
		Z34c
		Ab int `json:"ab"`
		Z34g
	}
	Z34c struct {
		z34e
		Z34f
		z34d
	}
	z34d struct {
		Ab int
		B  int
	}
	z34e struct {
		A int `json:"é"`
		B int `json:",omitempty"`
	}
	Z34f struct {
		D  int `json:",string"`
		Ab int `json:"B"`
	}
	Z34g struct {
	}
)
type (
	Z35a struct {
		Z35e `json:"a"`
		Z35b
		D int
	}
	Z35b struct {
		a int
		A int `json:"x'y"`
		B int
		z35c
	}
	z35c struct {
		ZN35 `json:"b,omitempty"`
		z35d
	}
	z35d struct {
		D int `json:"b"`
	}
	Z35e struct {
		Z35f
	}
	Z35f struct {
		B int `json:"-,string"`
		*Z35g
		*z35h
		A int `json:"a"`
		*z35d
	}
	Z35g struct {
	}
	z35h struct {
		A int `json:"A"`
	}
	ZN35 int
)
type (
	Z37a struct {
		z37b
		C    int `json:",string"`
		Z37f `json:"c,omitempty"`
	}
	z37b struct {
		zn37
		*Z37e
		Z37c
		a int `json:"a"`
	}
	Z37c struct {
		Z37d
		D int `json:"a<"`
		*Z37a
		zn37
	}
	Z37d struct {
	}
	Z37e struct {
		Z37g
		Z37f
	}
	Z37f struct {
		D  int `json:"A"`
		Ab int
		C  int
	}
	Z37g struct {
		A int `json:"B"`
	}
	zn37 int
)
type (
	Z38a struct {
		C int `json:"a,omitempty"`
		*Z38b
	}
	Z38b struct {
		*Z38e
		*z38c
		C int `json:"ab"`
		D int `json:"a<"`
	}
	z38c struct {
		Z38e
		*z38d
		Ab int `json:",string"`
		A  int
		B  int `json:"b,string"`
	}
	z38d struct {
		A int `json:",omitempty"`
		D int
	}
	Z38e struct {
		D  int `json:"-,string"`
		Ab int `json:"c,omitempty,string"`
	}
)
type (
	Z40a struct {
		D int `json:"-,omitempty"`
		A int `json:"B"`
		*Z40d
		Z40b `json:"c,omitempty"`
	}
	Z40b struct {
		A int `json:"c,omitempty,string"`
		*z40c
	}
	z40c struct {
		B int
		C int
		*Z40d
		D int `json:"a,omitempty"`
	}
	Z40d struct {
		*Z40a
		Ab int `json:"a,omitempty"`
	}
)
type (
	Z41a struct {
		B    int `json:"-"`
		Z41b `json:"c,omitempty"`
		C    int `json:"a<"`
		z41e `json:"a"`
	}
	Z41b struct {
		a int `json:"a"`
		Z41c
		*Z41f
	}
	Z41c struct {
		B int `json:"x'y"`
		Z41d
		C int
		z41e
	}
	Z41d struct {
	}
	z41e struct {
		A int `json:"b"`
	}
	Z41f struct {
		B int `json:"c,omitempty,string"`
		*z41e
	}
)
type (
	Z43a struct {
		B  int
		Ab int `json:"A"`
		Z43b
		A int `json:"c,omitempty,string"`
	}
	Z43b struct {
		*Z43c `json:"a"`
		Z43d
	}
	Z43c struct {
		A int `json:"-,omitempty"`
		B int `json:"b"`
	}
	Z43d struct {
		*z43e
		Ab int `json:",omitempty"`
		B  int `json:"b,string"`
	}
	z43e struct {
		Ab int `json:"-"`
		*Z43a
		C int `json:",omitempty"`
	}
)
type (
	Z44a struct {
		D int `json:",string"`
		Z44b
		Ab int `json:"a<"`
		Z44c
	}
	Z44b struct {
		A  int `json:"a<"`
		Ab int `json:"é"`
		Z44c
	}
	Z44c struct {
		*z44d
		D int `json:",omitempty"`
		A int
	}
	z44d struct {
		a int `json:"b"`
	}
)
type (
	Z45a struct {
		ZN45
		B int `json:",string"`
		Z45b
	}
	Z45b struct {
		*Z45c
		*z45e
		D int `json:"c,omitempty,string"`
		B int `json:"c"`
	}
	Z45c struct {
		*z45d
		D  int
		Ab int `json:"b,string"`
		B  int `json:"B"`
	}
	z45d struct {
		a int
	}
	z45e struct {
		Ab   int `json:"a,omitempty"`
		zn45 `json:"b,omitempty"`
		A    int `json:"a<"`
	}
	ZN45 int
	zn45 int
)
type (
	Z46a struct {
		Z46b
		a     int `json:"b"`
		*Z46d `json:"c,omitempty"`
		D     int `json:"A"`
		Ab    int `json:"-"`
		C     int `json:"-"`
	}
	Z46b struct {
		Z46c
	}
	Z46c struct {
		ZN46
	}
	Z46d struct {
		B int `json:"A"`
	}
	ZN46 int
)
type (
	Z47a struct {
		*z47b
		D     int `json:"a<"`
		*Z47g `json:"a"`
		C     int `json:"a,omitempty"`
	}
	z47b struct {
		*Z47e
		zn47 `json:"b,omitempty"`
		a    int `json:"b"`
		Z47c
		D int `json:"a<"`
	}
	Z47c struct {
		Z47d `json:"a"`
	}
	Z47d struct {
		A int `json:"-,string"`
	}
	Z47e struct {
		Z47d
		D int `json:",omitempty"`
		*z47f
	}
	z47f struct {
		B int `json:"ab"`
	}
	Z47g struct {
		D int
		ZN47
	}
	ZN47 int
	zn47 int
)
type (
	Z49a struct {
		C int
		B int `json:",string"`
		*Z49b
	}
	Z49b struct {
		Ab int `json:"A"`
		Z49d
		B    int `json:"c,omitempty,string"`
		zn49 `json:"a"`
		Z49c `json:"a"`
		Z49e
	}
	Z49c struct {
		Ab int `json:"b"`
		C  int
	}
	Z49d struct {
		Ab int `json:"c,omitempty,string"`
		C  int `json:"b"`
	}
	Z49e struct {
		B int `json:"b"`
		*Z49f
		Ab int
	}
	Z49f struct {
		D int `json:"x'y"`
		C int `json:"a"`
		a int
	}
	zn49 int
)
type (
	Z50a struct {
		z50b
		z50d
		C int `json:"B"`
	}
	z50b struct {
		Z50c
		Ab int `json:"-,string"`
	}
	Z50c struct {
		A int `json:"-"`
		z50d
	}
	z50d struct {
		C int `json:"a"`
	}
)
type (
	Z51a struct {
		Ab int
		*Z51c
		*Z51b
		C int `json:"a,omitempty"`
		A int `json:"-,"`
	}
	Z51b struct {
		*Z51f
		Z51d
		Z51c `json:"a"`
		C    int `json:"a"`
	}
	Z51c struct {
	}
	Z51d struct {
		Z51e
		D int `json:"é"`
	}
	Z51e struct {
		ZN51 `json:"b,omitempty"`
	}
	Z51f struct {
		Ab int `json:"B"`
		C  int `json:"-"`
		A  int `json:",omitempty"`
	}
	ZN51 int
)
type (
	Z52a struct {
		Z52i
		B int `json:"a,omitempty"`
		*Z52b
		a  int
		Ab int `json:"x'y"`
	}
	Z52b struct {
		Z52f `json:"a"`
		a    int `json:"b"`
		Z52c
	}
	Z52c struct {
		z52e `json:"c,omitempty"`
		*Z52d
	}
	Z52d struct {
	}
	z52e struct {
		B int `json:"B"`
		a int `json:"a"`
	}
	Z52f struct {
		*Z52g
		*Z52h
		a int `json:"a"`
	}
	Z52g struct {
		C int `json:"B"`
		A int `json:"B,foo"`
	}
	Z52h struct {
		B int `json:"a"`
		*Z52a
		Ab int `json:"a,omitempty"`
	}
	Z52i struct {
		Ab int `json:"-"`
	}
)
type (
	Z53a struct {
		C int `json:",omitempty"`
		*z53b
		z53f `json:"c,omitempty"`
		B    int `json:"c"`
		*Z53e
		D    int `json:"a,omitempty"`
		zn53 `json:"a"`
	}
	z53b struct {
		a int `json:"a"`
		Z53c
		Z53d
	}
	Z53c struct {
		Z53d
		A int `json:"b"`
		B int `json:"ab"`
	}
	Z53d struct {
		*Z53a
	}
	Z53e struct {
		D int `json:",string"`
		a int `json:"a"`
	}
	z53f struct {
		Z53h
		B int `json:"B,foo"`
		*z53g
		Z53i
		Ab int `json:"c,omitempty,string"`
	}
	z53g struct {
		a int `json:"b"`
	}
	Z53h struct {
		D int `json:"a"`
	}
	Z53i struct {
		Ab int `json:"é"`
		C  int `json:"-"`
	}
	zn53 int
)
type (
	Z54a struct {
		Z54b
		z54c
		zn54
		C int `json:"a<"`
		B int `json:"a,omitempty"`
	}
	Z54b struct {
	}
	z54c struct {
		Ab int `json:"b"`
		*z54h
		Z54d
		z54e `json:"a"`
	}
	Z54d struct {
		B int `json:"-"`
		A int `json:"-,"`
	}
	z54e struct {
		D int `json:"A"`
		C int `json:"x'y"`
		Z54f
		Z54g
		A int `json:"b"`
	}
	Z54f struct {
		C int
	}
	Z54g struct {
		A int `json:"b"`
		C int `json:"b"`
	}
	z54h struct {
		B int `json:"a"`
	}
	zn54 int
)
type (
	Z55a struct {
		D    int
		Z55g `json:"c,omitempty"`
		Z55e `json:"a"`
		A    int `json:"é"`
		Z55b
	}
	Z55b struct {
		zn55
		A int `json:"ab"`
		Z55c
	}
	Z55c struct {
		z55d
		B int `json:"a,omitempty"`
	}
	z55d struct {
	}
	Z55e struct {
		A     int `json:"b"`
		D     int `json:"a<"`
		*Z55f `json:"c,omitempty"`
		B     int `json:"A"`
	}
	Z55f struct {
		D int
		*z55d
	}
	Z55g struct {
	}
	zn55 int
)
type (
	Z57a struct {
		*z57g
		*Z57b `json:"a"`
		B     int `json:",omitempty"`
		Z57h  `json:"a"`
	}
	Z57b struct {
		D  int `json:"c"`
		C  int `json:"-"`
		Ab int `json:"B,foo"`
		z57f
		*Z57c `json:"c,omitempty"`
	}
	Z57c struct {
		*z57d
		Z57e
	}
	z57d struct {
		C  int `json:"b"`
		Ab int `json:",string"`
	}
	Z57e struct {
	}
	z57f struct {
		D int `json:",omitempty"`
	}
	z57g struct {
		*Z57a
	}
	Z57h struct {
		ZN57 `json:"b,omitempty"`
		B    int `json:"-"`
		C    int `json:",string"`
		D    int `json:",string"`
	}
	ZN57 int
)
type (
	Z58a struct {
		Ab int `json:",string"`
		Z58b
		z58g
	}
	Z58b struct {
		C int `json:"x'y"`
		*Z58f
		Z58c
	}
	Z58c struct {
		Z58d
		C int `json:"b"`
		ZN58
		z58e
	}
	Z58d struct {
	}
	z58e struct {
		B int
		A int `json:"a<"`
		*Z58a
		a int `json:"b"`
	}
	Z58f struct {
		C int
		B int
		*z58e
	}
	z58g struct {
		D int `json:",omitempty"`
		C int `json:"a"`
	}
	ZN58 int
)
type (
	Z59a struct {
		Z59b `json:"c,omitempty"`
		D    int `json:"a<"`
		B    int `json:"a"`
		z59e `json:"a"`
	}
	Z59b struct {
		Z59f
		D int `json:"c"`
		*Z59c
		B int `json:"a<"`
		zn59
		C int `json:"a"`
	}
	Z59c struct {
		*z59e
		a    int
		z59d `json:"c,omitempty"`
		B    int `json:"b,string"`
	}
	z59d struct {
		A int
		D int
		*Z59a
		C int `json:"B"`
	}
	z59e struct {
		a int
		B int `json:"c"`
	}
	Z59f struct {
		C int `json:"A"`
	}
	zn59 int
)
type (
	Z60a struct {
		Z60b `json:"c,omitempty"`
		Z60g `json:"c,omitempty"`
		z60h `json:"a"`
		A    int
		Ab   int `json:"-"`
	}
	Z60b struct {
		D int `json:"a<"`
		A int `json:"a<"`
		*Z60c
		*Z60f
		a int `json:"a"`
	}
	Z60c struct {
		Z60e
		Z60d
	}
	Z60d struct {
		*Z60a
	}
	Z60e struct {
		C int
	}
	Z60f struct {
		D int
		A int `json:"a<"`
	}
	Z60g struct {
		B int `json:"ab"`
	}
	z60h struct {
		D int `json:"-,"`
		A int `json:"B"`
		C int `json:"B"`
	}
)
type (
	Z61a struct {
		C    int `json:"a<"`
		Z61e `json:"a"`
		Ab   int `json:"x'y"`
		Z61b
	}
	Z61b struct {
		Z61c
		Ab int `json:"B"`
	}
	Z61c struct {
		*Z61e `json:"a"`
		Ab    int `json:"a"`
		A     int `json:",string"`
		*z61d
	}
	z61d struct {
	}
	Z61e struct {
		Ab int `json:",omitempty"`
		A  int `json:"ab"`
	}
)
type (
	Z62a struct {
		C int `json:"c,omitempty,string"`
		z62b
		ZN62
		*z62h
	}
	z62b struct {
		D  int `json:"a"`
		Ab int `json:",omitempty"`
		Z62c
		*z62f
	}
	Z62c struct {
		A  int `json:"b"`
		Ab int
		Z62e
		*Z62d `json:"c,omitempty"`
	}
	Z62d struct {
	}
	Z62e struct {
		ZN62 `json:"b,omitempty"`
	}
	z62f struct {
		C int `json:"é"`
		B int `json:"c,omitempty,string"`
		Z62g
	}
	Z62g struct {
		D int
	}
	z62h struct {
	}
	ZN62 int
)
type (
	Z64a struct {
		C int `json:"a<"`
		Z64h
		Ab int `json:"c"`
		*Z64g
		Z64b `json:"a"`
	}
	Z64b struct {
		Z64f `json:"c,omitempty"`
		*Z64c
		D int
	}
	Z64c struct {
		*Z64d
		z64e
	}
	Z64d struct {
		B int `json:"a<"`
		a int
	}
	z64e struct {
		C  int
		Ab int `json:"-,omitempty"`
		a  int `json:"b"`
	}
	Z64f struct {
		ZN64
	}
	Z64g struct {
		D  int `json:"x'y"`
		Ab int `json:"c"`
		C  int `json:"x'y"`
	}
	Z64h struct {
	}
	ZN64 int
)
type (
	Z65a struct {
		Z65f
		z65b
		C int `json:"é"`
	}
	z65b struct {
		Ab   int `json:",string"`
		Z65e `json:"a"`
		*Z65c
		A int `json:"B,foo"`
	}
	Z65c struct {
		ZN65
		z65d
	}
	z65d struct {
		ZN65
	}
	Z65e struct {
		*z65d
		a int `json:"a"`
	}
	Z65f struct {
		*Z65a
		*Z65h
		D    int `json:"b,string"`
		Z65g `json:"c,omitempty"`
	}
	Z65g struct {
		B int `json:",omitempty"`
	}
	Z65h struct {
		B int `json:"c,omitempty,string"`
		ZN65
		D int `json:"é"`
	}
	ZN65 int
)
type (
	Z66a struct {
		*z66b
		D int
		A int `json:"c"`
	}
	z66b struct {
		Ab int
		B  int `json:",omitempty"`
	}
)
type (
	Z68a struct {
		C int `json:"B"`
		*z68b
		D int `json:"B"`
	}
	z68b struct {
		*Z68a
		*Z68c
	}
	Z68c struct {
		B  int
		Ab int `json:"b"`
	}
)
type (
	Z69a struct {
		z69b
		Z69c
		Ab int `json:",omitempty"`
	}
	z69b struct {
		C int `json:"a"`
		A int `json:"c,omitempty,string"`
	}
	Z69c struct {
		zn69
		B int `json:"a"`
		*z69h
		A int
		Z69d
		C int
	}
	Z69d struct {
		z69e
		Z69f `json:"a"`
		C    int
		B    int
		Z69g
	}
	z69e struct {
		D int `json:"a,omitempty"`
		zn69
		a int `json:"b"`
	}
	Z69f struct {
	}
	Z69g struct {
		A int `json:"-"`
		B int
	}
	z69h struct {
		a int `json:"b"`
	}
	zn69 int
)
type (
	Z70a struct {
		C    int `json:"A"`
		A    int
		B    int `json:"-"`
		Z70b `json:"c,omitempty"`
	}
	Z70b struct {
		*z70c
		D int `json:"a<"`
		*z70f
	}
	z70c struct {
		D    int
		Z70e `json:"c,omitempty"`
		z70d
		A int `json:"c,omitempty,string"`
	}
	z70d struct {
		A int
	}
	Z70e struct {
		Ab int `json:"a<"`
	}
	z70f struct {
		a int `json:"b"`
	}
)
type (
	Z71a struct {
		Ab   int `json:",omitempty"`
		z71b `json:"c,omitempty"`
	}
	z71b struct {
		a int `json:"b"`
		z71c
	}
	z71c struct {
		A    int
		D    int
		Z71d `json:"c,omitempty"`
	}
	Z71d struct {
		a int `json:"b"`
		A int `json:",string"`
		C int `json:"b"`
	}
)
type (
	Z72a struct {
		*Z72d
		Ab int `json:"A"`
		C  int `json:"ab"`
		*z72b
	}
	z72b struct {
		Z72c
		D int `json:"a,omitempty"`
		A int `json:"-,"`
		B int `json:"A"`
	}
	Z72c struct {
		Ab int
		C  int
		Z72d
	}
	Z72d struct {
		A    int `json:",string"`
		Ab   int `json:",omitempty"`
		zn72 `json:"b,omitempty"`
	}
	zn72 int
)
type (
	Z73a struct {
		B int `json:",string"`
		Z73b
	}
	Z73b struct {
		Z73c `json:"c,omitempty"`
		B    int
	}
	Z73c struct {
		Ab int
		a  int
		ZN73
		Z73d
	}
	Z73d struct {
		D int `json:"a"`
		C int `json:",omitempty"`
	}
	ZN73 int
)
type (
	Z74a struct {
		Ab int `json:"-,string"`
		A  int `json:"é"`
		Z74c
		*z74d
		z74b
	}
	z74b struct {
		*Z74c `json:"c,omitempty"`
		D     int `json:"x'y"`
		*Z74e
	}
	Z74c struct {
		z74d
		B  int
		D  int `json:"b,string"`
		Ab int `json:",omitempty"`
	}
	z74d struct {
	}
	Z74e struct {
		Ab int `json:"ab"`
		A  int `json:"b,string"`
	}
)
type (
	Z75a struct {
		Ab int `json:"B"`
		*Z75b
	}
	Z75b struct {
		C int `json:"x'y"`
		*z75c
		Ab int `json:"-,"`
		Z75e
	}
	z75c struct {
		Z75d
	}
	Z75d struct {
		zn75
	}
	Z75e struct {
		*Z75f
		*Z75d
		Ab int `json:"a,omitempty"`
		A  int `json:"-,"`
		D  int `json:"é"`
	}
	Z75f struct {
		B int `json:"b"`
	}
	zn75 int
)
type (
	Z78a struct {
		Z78b
		Z78e
		Ab int `json:"c,omitempty,string"`
		C  int `json:"a,omitempty"`
		B  int
	}
	Z78b struct {
		B int `json:"x'y"`
		A int `json:"a"`
		*Z78c
	}
	Z78c struct {
		*Z78d
		C    int `json:"c,omitempty,string"`
		ZN78 `json:"a"`
	}
	Z78d struct {
		Ab int `json:"é"`
		B  int `json:"A"`
	}
	Z78e struct {
		D     int
		*Z78f `json:"a"`
		Z78g
	}
	Z78f struct {
	}
	Z78g struct {
		a int `json:"b"`
	}
	ZN78 int
)
type (
	Z79a struct {
		C int
		z79h
		*Z79b
		Ab int `json:",omitempty"`
	}
	Z79b struct {
		Z79c
		Ab int
		z79d
		Z79e `json:"c,omitempty"`
	}
	Z79c struct {
		*Z79a
		B int
	}
	z79d struct {
		Ab int `json:"é"`
	}
	Z79e struct {
		*Z79f
		Ab int `json:"x'y"`
		z79g
	}
	Z79f struct {
		D int `json:"b,string"`
		a int
		B int `json:"A"`
	}
	z79g struct {
		a int `json:"a"`
	}
	z79h struct {
		A int `json:"a<"`
		B int `json:",omitempty"`
	}
)
type (
	Z83a struct {
		B    int `json:"A"`
		z83b `json:"c,omitempty"`
		A    int `json:"a<"`
		C    int `json:",omitempty"`
	}
	z83b struct {
		*Z83c
	}
	Z83c struct {
		*Z83a
		A int `json:"B"`
	}
)
type (
	Z84a struct {
		Z84b
		Ab   int `json:"é"`
		Z84c `json:"c,omitempty"`
	}
	Z84b struct {
		*Z84c
		*Z84d `json:"c,omitempty"`
		Ab    int `json:"é"`
	}
	Z84c struct {
		C int `json:"a"`
		*Z84d
	}
	Z84d struct {
		Ab int `json:"-"`
		B  int `json:"a"`
		a  int
	}
)
type (
	Z85a struct {
		A int
		D int `json:"c"`
		Z85c
		*z85b
		z85e
	}
	z85b struct {
		zn85
		z85d
		*Z85c `json:"a"`
	}
	Z85c struct {
	}
	z85d struct {
		A int
	}
	z85e struct {
		Ab int `json:"c"`
		*Z85a
		a    int
		ZN85 `json:"b,omitempty"`
		C    int `json:"B"`
		Z85g
		Z85f
		*Z85h
	}
	Z85f struct {
		C int `json:"b"`
		a int `json:"a"`
	}
	Z85g struct {
	}
	Z85h struct {
		A int `json:"B"`
	}
	ZN85 int
	zn85 int
)
type (
	Z86a struct {
		A int `json:"B"`
		*Z86b
		Ab int `json:"b,string"`
	}
	Z86b struct {
		ZN86 `json:"b,omitempty"`
		*Z86c
		C int `json:"A"`
	}
	Z86c struct {
		B int `json:"a,omitempty"`
		*Z86d
		Z86e
		ZN86
		C int `json:"ab"`
	}
	Z86d struct {
		ZN86 `json:"a"`
		B    int `json:"a<"`
	}
	Z86e struct {
	}
	ZN86 int
)
type (
	Z88a struct {
		A    int `json:"é"`
		Z88b `json:"a"`
		B    int `json:",string"`
	}
	Z88b struct {
		C int `json:"B,foo"`
		z88c
	}
	z88c struct {
		B int `json:"-,omitempty"`
		Z88d
		C int
	}
	Z88d struct {
		a int `json:"b"`
	}
)
type (
	Z89a struct {
		D int `json:"c"`
		z89b
	}
	z89b struct {
		*z89f
		*z89c
	}
	z89c struct {
		C int `json:"x'y"`
		Z89e
		a int
		Z89d
		D int `json:"-,string"`
	}
	Z89d struct {
	}
	Z89e struct {
		C int
		A int `json:",omitempty"`
	}
	z89f struct {
		D int `json:",omitempty"`
		*z89h
		*z89g
		C int
	}
	z89g struct {
		a int `json:"a"`
	}
	z89h struct {
		A int
		D int `json:"a,omitempty"`
	}
)
type (
	Z90a struct {
		a int `json:"b"`
		C int `json:"A"`
		Z90b
	}
	Z90b struct {
		z90c
		Ab int `json:"a,omitempty"`
	}
	z90c struct {
		ZN90 `json:"b,omitempty"`
		Ab   int
		*Z90d
		C int
	}
	Z90d struct {
		C int `json:",omitempty"`
		D int `json:"c,omitempty,string"`
	}
	ZN90 int
)
type (
	Z91a struct {
		*Z91b
		A  int `json:"x'y"`
		Ab int `json:"-,omitempty"`
	}
	Z91b struct {
		B int `json:"A"`
		Z91c
		Ab int `json:",omitempty"`
		*Z91e
	}
	Z91c struct {
		Z91d
		A int `json:",string"`
		B int `json:"c,omitempty,string"`
		D int `json:"A"`
	}
	Z91d struct {
	}
	Z91e struct {
		D int `json:"B"`
		z91f
		*z91g
	}
	z91f struct {
		Ab int `json:"a<"`
		*Z91a
	}
	z91g struct {
		*Z91a
		D int `json:",string"`
		A int `json:"x'y"`
	}
)
type (
	Z92a struct {
		A int
		D int `json:"x'y"`
		*Z92g
		Z92b
		a int `json:"a"`
	}
	Z92b struct {
		A     int `json:"-,string"`
		*Z92c `json:"a"`
		B     int
		*Z92e
		*Z92a
	}
	Z92c struct {
		Z92e
		Z92f
		Z92d
		Ab int
	}
	Z92d struct {
	}
	Z92e struct {
		Ab int `json:"B,foo"`
		A  int `json:"b"`
	}
	Z92f struct {
		B int `json:"-,string"`
	}
	Z92g struct {
		D int `json:"a<"`
		A int `json:"-,string"`
	}
)
type (
	Z94a struct {
		a    int `json:"b"`
		z94h `json:"a"`
		Z94b `json:"a"`
		A    int `json:"x'y"`
		Z94e
		C int `json:"x'y"`
	}
	Z94b struct {
		Z94g
		Z94c `json:"c,omitempty"`
		B    int `json:"b,string"`
		D    int `json:"c"`
	}
	Z94c struct {
		z94f
		C int `json:"a<"`
		*Z94d
		Z94e
		A int `json:",omitempty"`
	}
	Z94d struct {
		*Z94a
	}
	Z94e struct {
	}
	z94f struct {
		*Z94a
		Ab int `json:"a<"`
	}
	Z94g struct {
		B int `json:"-"`
		D int `json:",omitempty"`
	}
	z94h struct {
		C  int `json:"b,string"`
		Ab int `json:"-"`
	}
)
type (
	Z95a struct {
		*z95c
		B int
		*z95b
		ZN95 `json:"a"`
	}
	z95b struct {
		B int `json:"a,omitempty"`
	}
	z95c struct {
		C int
		a int `json:"a"`
	}
	ZN95 int
)
type (
	Z96a struct {
		*Z96b
		B int `json:"b,string"`
	}
	Z96b struct {
		*Z96c
		Ab int `json:"B"`
	}
	Z96c struct {
		D  int `json:"a"`
		Ab int
		*Z96d
	}
	Z96d struct {
		Ab int `json:"c,omitempty,string"`
		B  int
		a  int `json:"a"`
	}
)
type (
	Z97a struct {
		zn97 `json:"b,omitempty"`
		Z97b
		*Z97d
		a int `json:"a"`
		B int `json:"é"`
	}
	Z97b struct {
		z97c
		B    int `json:",string"`
		Ab   int `json:"-,omitempty"`
		ZN97 `json:"a"`
	}
	z97c struct {
		zn97 `json:"a"`
		*z97e
		*Z97d
		A int `json:"b,string"`
		B int
	}
	Z97d struct {
	}
	z97e struct {
		B int `json:"-,omitempty"`
		a int
	}
	ZN97 int
	zn97 int
)
type (
	Z99a struct {
		Ab    int `json:"-"`
		*Z99b `json:"c,omitempty"`
	}
	Z99b struct {
		*Z99e `json:"a"`
		*z99c
	}
	z99c struct {
		B int `json:",omitempty"`
		*Z99a
		C int
		*Z99d
	}
	Z99d struct {
		B int `json:"-"`
	}
	Z99e struct {
		Z99f
		Z99g
		B int `json:"ab"`
	}
	Z99f struct {
		C int `json:",omitempty"`
	}
	Z99g struct {
		Ab int `json:"B"`
		zn99
	}
	zn99 int
)
type (
	Z100a struct {
		A int `json:"a"`
		Z100b
	}
	Z100b struct {
		A     int `json:"B"`
		Z100c `json:"c,omitempty"`
		C     int `json:"c,omitempty,string"`
		D     int
	}
	Z100c struct {
		*Z100e
		*Z100d `json:"a"`
	}
	Z100d struct {
		A int `json:",string"`
	}
	Z100e struct {
		a int
		A int `json:",omitempty"`
	}
)
type (
	Z101a struct {
		D     int `json:"-"`
		z101d `json:"c,omitempty"`
		Z101b
	}
	Z101b struct {
		B int
		*Z101c
		D int `json:"c"`
	}
	Z101c struct {
		B int `json:"b"`
	}
	z101d struct {
		z101h `json:"c,omitempty"`
		C     int `json:"ab"`
		z101e
	}
	z101e struct {
		B int `json:"é"`
		*Z101f
		*Z101g
		D int `json:",omitempty"`
	}
	Z101f struct {
		B int `json:"a,omitempty"`
	}
	Z101g struct {
		C  int `json:"c,omitempty,string"`
		a  int `json:"b"`
		Ab int `json:"é"`
		D  int
	}
	z101h struct {
		Ab int `json:"ab"`
		A  int `json:"a,omitempty"`
		C  int
	}
)
type (
	Z103a struct {
		*Z103c
		*Z103b
		Ab int `json:"a<"`
	}
	Z103b struct {
		C int `json:",omitempty"`
		D int `json:"ab"`
	}
	Z103c struct {
		a int `json:"b"`
		ZN103
	}
	ZN103 int
)
type (
	Z104a struct {
		Z104c
		D int `json:"-"`
		*Z104b
		ZN104
		z104g
	}
	Z104b struct {
	}
	Z104c struct {
		C int `json:",omitempty"`
		z104e
		*z104d
		A int
	}
	z104d struct {
		D int `json:"c"`
		a int `json:"b"`
		B int
	}
	z104e struct {
		*Z104f
		A int `json:"b,string"`
		a int `json:"b"`
	}
	Z104f struct {
		B  int `json:"b"`
		A  int `json:"a"`
		Ab int `json:"a"`
	}
	z104g struct {
	}
	ZN104 int
)
type (
	Z105a struct {
		Z105b  `json:"c,omitempty"`
		A      int
		*Z105e `json:"a"`
		Ab     int `json:"b"`
		C      int `json:"A"`
	}
	Z105b struct {
		z105c
	}
	z105c struct {
		Z105d
		C int `json:"A"`
		a int `json:"b"`
	}
	Z105d struct {
		ZN105 `json:"b,omitempty"`
		B     int `json:"a<"`
	}
	Z105e struct {
		A int
	}
	ZN105 int
)
type (
	Z106a struct {
		Z106b
		*Z106e `json:"a"`
		Ab     int
	}
	Z106b struct {
		B int `json:"-"`
		C int `json:"a,omitempty"`
		a int
		*Z106c
	}
	Z106c struct {
		*Z106d
		C  int `json:"-"`
		Ab int `json:"-"`
	}
	Z106d struct {
		A int `json:"B,foo"`
	}
	Z106e struct {
	}
)
type (
	Z107a struct {
		Z107c
		A      int `json:"B"`
		*Z107b `json:"a"`
	}
	Z107b struct {
		B int `json:"a"`
	}
	Z107c struct {
		D int `json:",string"`
		z107d
	}
	z107d struct {
		C int `json:"c"`
		D int `json:"b,string"`
		a int `json:"b"`
		B int `json:"A"`
	}
)
type (
	Z108a struct {
		Z108b `json:"c,omitempty"`
		*z108e
		D int
		C int `json:"x'y"`
	}
	Z108b struct {
		*Z108f `json:"c,omitempty"`
		A      int `json:"c"`
		z108c
		C int `json:"B,foo"`
		D int `json:"x'y"`
	}
	z108c struct {
		z108e
		Ab int `json:",omitempty"`
		Z108d
	}
	Z108d struct {
		A int
		B int `json:"B,foo"`
	}
	z108e struct {
		D int `json:"c,omitempty,string"`
		B int
	}
	Z108f struct {
		Z108g
	}
	Z108g struct {
	}
)
type (
	Z111a struct {
		Z111b `json:"c,omitempty"`
		A     int `json:"a,omitempty"`
		Z111e `json:"a"`
	}
	Z111b struct {
		Ab int
		a  int
		z111c
		Z111e
	}
	z111c struct {
		Ab int `json:"b"`
		A  int
		a  int `json:"a"`
		*Z111d
	}
	Z111d struct {
		ZN111 `json:"a"`
	}
	Z111e struct {
		*z111f
	}
	z111f struct {
		A int `json:",string"`
		B int `json:"a,omitempty"`
	}
	ZN111 int
)
type (
	Z112a struct {
		C     int `json:"a<"`
		Z112b `json:"c,omitempty"`
	}
	Z112b struct {
		*Z112d
		Z112c
	}
	Z112c struct {
		*Z112d
	}
	Z112d struct {
		B int `json:"x'y"`
		D int `json:"b"`
		C int `json:"x'y"`
	}
)
type (
	Z114a struct {
		ZN114
		*Z114b
		A int `json:",omitempty"`
	}
	Z114b struct {
		C int `json:",string"`
		Z114c
	}
	Z114c struct {
		z114d `json:"a"`
		Ab    int `json:"c"`
	}
	z114d struct {
		ZN114 `json:"a"`
		a     int
	}
	ZN114 int
)
type (
	Z116a struct {
		Z116b
		z116g `json:"c,omitempty"`
		D     int `json:"ab"`
	}
	Z116b struct {
		Z116c `json:"c,omitempty"`
		ZN116 `json:"a"`
		Z116e
	}
	Z116c struct {
		B  int `json:",omitempty"`
		Ab int `json:"B"`
		*Z116d
	}
	Z116d struct {
	}
	Z116e struct {
		B int `json:"c"`
		A int `json:"c"`
		Z116f
		C int `json:"b,string"`
	}
	Z116f struct {
		B int `json:",string"`
		*Z116a
		a int `json:"a"`
		C int `json:"a,omitempty"`
		A int `json:",omitempty"`
	}
	z116g struct {
	}
	ZN116 int
)
type (
	Z117a struct {
		z117b `json:"a"`
		a     int `json:"a"`
		A     int `json:"a"`
	}
	z117b struct {
		B int `json:"B"`
		D int `json:",omitempty"`
		A int `json:"b,string"`
	}
)
type (
	Z118a struct {
		D int `json:"b"`
		B int `json:"-"`
		z118b
	}
	z118b struct {
		Ab int `json:"a"`
		Z118c
	}
	Z118c struct {
		*Z118e
		Z118d
	}
	Z118d struct {
	}
	Z118e struct {
	}
)
type (
	Z119a struct {
		*Z119b
		A int `json:",omitempty"`
		D int `json:"b"`
	}
	Z119b struct {
		zn119
		z119c `json:"c,omitempty"`
	}
	z119c struct {
		a int `json:"b"`
		C int `json:"a<"`
		*Z119e
		*Z119d
	}
	Z119d struct {
		zn119
	}
	Z119e struct {
		C     int `json:"ab"`
		zn119 `json:"b,omitempty"`
		B     int
	}
	zn119 int
)
type (
	Z120a struct {
		a      int `json:"b"`
		*Z120c `json:"c,omitempty"`
		*z120b
		B int `json:"é"`
		C int `json:"-"`
	}
	z120b struct {
		D int `json:"b,string"`
		C int `json:"A"`
	}
	Z120c struct {
		z120d
		D  int `json:",omitempty"`
		Ab int `json:"a,omitempty"`
	}
	z120d struct {
		B int
		A int `json:"B"`
	}
)
type (
	Z121a struct {
		zn121
		Z121b
		Ab int `json:"a,omitempty"`
		A  int
	}
	Z121b struct {
		z121e
		Z121c
		C int `json:"-"`
		*Z121a
	}
	Z121c struct {
		*Z121d
	}
	Z121d struct {
		C int
		B int `json:"-,omitempty"`
	}
	z121e struct {
		A int `json:"c,omitempty,string"`
	}
	zn121 int
)
type (
	Z123a struct {
		B int `json:",omitempty"`
		Z123d
		z123b
		Z123g
	}
	z123b struct {
		D int `json:"-"`
		Z123c
		C int `json:"b"`
	}
	Z123c struct {
		ZN123
	}
	Z123d struct {
		Z123e
		D int
		B int `json:"a,omitempty"`
		a int
	}
	Z123e struct {
		*Z123f
		ZN123
		D int `json:",string"`
		B int `json:"A"`
	}
	Z123f struct {
	}
	Z123g struct {
	}
	ZN123 int
)
type (
	Z125a struct {
		*Z125c
		zn125
		Z125b
		Ab int `json:"a,omitempty"`
	}
	Z125b struct {
	}
	Z125c struct {
		*Z125e
		*Z125d `json:"a"`
		Z125g
		a int `json:"a"`
	}
	Z125d struct {
		D int `json:"B,foo"`
		Z125f
		*Z125e
	}
	Z125e struct {
		ZN125 `json:"a"`
	}
	Z125f struct {
		B int `json:",omitempty"`
		ZN125
		D int `json:"é"`
		*Z125a
	}
	Z125g struct {
		*Z125a
	}
	ZN125 int
	zn125 int
)
type (
	Z126a struct {
		C  int `json:"x'y"`
		Ab int `json:"-"`
		*z126b
		*z126c
	}
	z126b struct {
	}
	z126c struct {
		Ab int `json:"A"`
	}
)
type (
	Z128a struct {
		*Z128c
		ZN128 `json:"b,omitempty"`
		A     int
		C     int `json:"x'y"`
		B     int `json:"B,foo"`
		Z128b `json:"a"`
	}
	Z128b struct {
		A int `json:",string"`
	}
	Z128c struct {
		Ab int `json:"B,foo"`
		A  int `json:"ab"`
	}
	ZN128 int
)
type (
	Z129a struct {
		A int `json:"x'y"`
		*z129b
		Z129c
	}
	z129b struct {
		a int
	}
	Z129c struct {
		A int `json:"b,string"`
	}
)
type (
	Z130a struct {
		Z130b `json:"a"`
		ZN130
		D int
		A int `json:"B,foo"`
	}
	Z130b struct {
		Ab int `json:"a<"`
		Z130c
		ZN130
	}
	Z130c struct {
		*Z130d
	}
	Z130d struct {
		A int `json:"ab"`
		C int `json:"x'y"`
	}
	ZN130 int
)
type (
	Z131a struct {
		A int `json:"B"`
		a int
		C int `json:"ab"`
		Z131b
	}
	Z131b struct {
		A int
		a int `json:"a"`
		C int `json:"B"`
	}
)
type (
	Z133a struct {
		Z133b
		B int `json:"ab"`
		Z133d
		A int `json:",string"`
	}
	Z133b struct {
		B int `json:"a"`
		Z133c
		D int `json:"B"`
	}
	Z133c struct {
		D int `json:"c"`
		Z133d
		Z133e
	}
	Z133d struct {
		A int `json:"-"`
		B int `json:"a"`
	}
	Z133e struct {
	}
)
type (
	Z134a struct {
		Z134b `json:"c,omitempty"`
		C     int `json:"-"`
		D     int `json:"a<"`
		a     int
		B     int `json:"c,omitempty,string"`
	}
	Z134b struct {
		B      int `json:"c"`
		*Z134e `json:"a"`
		C      int `json:"a"`
		Z134c
	}
	Z134c struct {
		*Z134a
		B int
		*Z134d
	}
	Z134d struct {
		*Z134a
		C int `json:"é"`
		D int
	}
	Z134e struct {
		D int `json:"B,foo"`
		A int `json:"b"`
	}
)
type (
	Z135a struct {
		D int `json:"x'y"`
		Z135b
		Ab int `json:",omitempty"`
		z135g
	}
	Z135b struct {
		Z135c `json:"c,omitempty"`
		D     int `json:",omitempty"`
		ZN135 `json:"b,omitempty"`
	}
	Z135c struct {
		z135f
		*Z135e `json:"a"`
		*Z135a
		C     int `json:"b,string"`
		z135d `json:"c,omitempty"`
	}
	z135d struct {
		Ab int
		B  int `json:"b"`
	}
	Z135e struct {
		Ab int
		B  int `json:"A"`
	}
	z135f struct {
		D     int `json:"b"`
		zn135 `json:"b,omitempty"`
	}
	z135g struct {
		Ab int `json:"ab"`
	}
	ZN135 int
	zn135 int
)
type (
	Z137a struct {
		z137b
		Ab int `json:"c,omitempty,string"`
	}
	z137b struct {
		z137g
		z137c `json:"c,omitempty"`
		Ab    int `json:",omitempty"`
		A     int
	}
	z137c struct {
		Z137f
		ZN137
		*z137d
		D int `json:"a,omitempty"`
		Z137e
		a int
	}
	z137d struct {
		D  int `json:",string"`
		A  int `json:",omitempty"`
		Ab int `json:",string"`
	}
	Z137e struct {
		D int `json:"-"`
		C int `json:"-,string"`
	}
	Z137f struct {
		C int
	}
	z137g struct {
		B int `json:"a"`
		A int `json:"é"`
		D int `json:"-,string"`
	}
	ZN137 int
)
type (
	Z141a struct {
		*z141b
		Ab int `json:"é"`
		C  int
	}
	z141b struct {
		A int `json:"B"`
	}
)

var zooAll = []stZoo{
	{func(null func(int) bool) interface{} {
		x := &Z0a{}
		if !null(0) {
			x.Z0b = &Z0b{}
		}
		if x.Z0b != nil && !null(1) {
			x.Z0b.Z0e.z0f = &z0f{}
		}
		if x.Z0b != nil && !null(2) {
			x.Z0b.Z0c = &Z0c{}
		}
		if x.Z0b != nil && x.Z0b.Z0c != nil && !null(3) {
			x.Z0b.Z0c.Z0d = &Z0d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z0a)
		l := make([]*int, 12)
		l[0] = &x.a
		l[1] = &x.D
		if x.Z0b != nil && x.Z0b.Z0e.z0f != nil {
			l[2] = (*int)(&x.Z0b.Z0e.z0f.zn0)
		}
		if x.Z0b != nil && x.Z0b.Z0e.z0f != nil {
			l[3] = &x.Z0b.Z0e.z0f.D
		}
		if x.Z0b != nil {
			l[4] = &x.Z0b.Z0e.D
		}
		if x.Z0b != nil {
			l[5] = &x.Z0b.Z0e.B
		}
		if x.Z0b != nil {
			l[6] = &x.Z0b.B
		}
		if x.Z0b != nil {
			l[7] = &x.Z0b.C
		}
		if x.Z0b != nil && x.Z0b.Z0c != nil {
			l[8] = &x.Z0b.Z0c.a
		}
		if x.Z0b != nil {
			l[9] = (*int)(&x.Z0b.ZN0)
		}
		l[10] = &x.B
		l[11] = &x.A
		_ = x
		return l
	},
		[]bool{true, false, true, true}, [][]int{{}, {0}, {0}, {0, 2}},
		[]zm{{"b", 1, false, false, nil, -1, []int{}}, {"c", -1, true, false, []zm{{"C", 7, false, false, nil, -1, []int{}}, {"b", 9, true, false, nil, -1, []int{}}}, 0, []int{}}, {"B", 10, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z1a{}
		if !null(0) {
			x.Z1b.z1e.Z1f = &Z1f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z1a)
		l := make([]*int, 15)
		l[0] = (*int)(&x.ZN1)
		l[1] = &x.Z1g.C
		l[2] = &x.A
		l[3] = &x.Z1b.Z1c.Z1d.Ab
		l[4] = &x.Z1b.Z1c.Z1d.A
		l[5] = &x.Z1b.Z1c.Z1d.B
		l[6] = &x.Z1b.Z1c.Ab
		l[7] = &x.Z1b.Z1c.a
		l[8] = &x.Z1b.z1e.Ab
		l[9] = &x.Z1b.z1e.Z1d.Ab
		l[10] = &x.Z1b.z1e.Z1d.A
		l[11] = &x.Z1b.z1e.Z1d.B
		l[12] = &x.Z1b.z1e.A
		if x.Z1b.z1e.Z1f != nil {
			l[13] = (*int)(&x.Z1b.z1e.Z1f.zn1)
		}
		if x.Z1b.z1e.Z1f != nil {
			l[14] = &x.Z1b.z1e.Z1f.D
		}
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"ZN1", 0, false, false, nil, -1, []int{}}, {"a<", 2, false, false, nil, -1, []int{}}, {"Ab", 8, false, false, nil, -1, []int{}}, {"D", 14, true, false, nil, -1, []int{0}}}},
	{func(null func(int) bool) interface{} {
		x := &Z3a{}
		if !null(0) {
			x.z3b.Z3c = &Z3c{}
		}
		if x.z3b.Z3c != nil && !null(1) {
			x.z3b.Z3c.Z3d = &Z3d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z3a)
		l := make([]*int, 8)
		l[0] = &x.z3b.A
		l[1] = (*int)(&x.z3b.zn3)
		if x.z3b.Z3c != nil && x.z3b.Z3c.Z3d != nil {
			l[2] = &x.z3b.Z3c.Z3d.D
		}
		l[3] = &x.z3b.B
		l[4] = &x.z3b.Ab
		l[5] = &x.a
		l[6] = &x.A
		l[7] = &x.D
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {0}},
		[]zm{{"B", 0, false, false, nil, -1, []int{}}, {"D", 2, false, false, nil, -1, []int{0, 1}}, {"Ab", 4, false, true, nil, -1, []int{}}, {"b", 6, false, false, nil, -1, []int{}}, {"c", 7, true, true, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z5a{}
		if !null(0) {
			x.Z5b.z5c = &z5c{}
		}
		if x.Z5b.z5c != nil && !null(1) {
			x.Z5b.z5c.z5e = &z5e{}
		}
		if x.Z5b.z5c != nil && !null(2) {
			x.Z5b.z5c.z5d = &z5d{}
		}
		if !null(3) {
			x.z5e = &z5e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z5a)
		l := make([]*int, 8)
		l[0] = &x.D
		l[1] = &x.Z5b.A
		l[2] = &x.Z5b.Ab
		l[3] = &x.Z5b.a
		if x.Z5b.z5c != nil {
			l[4] = (*int)(&x.Z5b.z5c.ZN5)
		}
		if x.Z5b.z5c != nil && x.Z5b.z5c.z5e != nil {
			l[5] = &x.Z5b.z5c.z5e.A
		}
		if x.Z5b.z5c != nil {
			l[6] = &x.Z5b.z5c.B
		}
		if x.z5e != nil {
			l[7] = &x.z5e.A
		}
		_ = x
		return l
	},
		[]bool{false, false, false, false}, [][]int{{}, {0}, {0}, {}},
		[]zm{{"D", 0, false, false, nil, -1, []int{}}, {"Ab", 2, false, false, nil, -1, []int{}}, {"b", 4, true, false, nil, -1, []int{0}}, {"A", 7, false, false, nil, -1, []int{3}}}},
	{func(null func(int) bool) interface{} {
		x := &Z7a{}
		if !null(0) {
			x.Z7b = &Z7b{}
		}
		if x.Z7b != nil && !null(1) {
			x.Z7b.Z7c = &Z7c{}
		}
		if x.Z7b != nil && !null(2) {
			x.Z7b.Z7d = &Z7d{}
		}
		if x.Z7b != nil && x.Z7b.Z7d != nil && !null(3) {
			x.Z7b.Z7d.Z7e = &Z7e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z7a)
		l := make([]*int, 13)
		if x.Z7b != nil {
			l[0] = &x.Z7b.B
		}
		if x.Z7b != nil {
			l[1] = &x.Z7b.a
		}
		if x.Z7b != nil && x.Z7b.Z7c != nil {
			l[2] = &x.Z7b.Z7c.A
		}
		if x.Z7b != nil && x.Z7b.Z7c != nil {
			l[3] = &x.Z7b.Z7c.C
		}
		if x.Z7b != nil && x.Z7b.Z7c != nil {
			l[4] = &x.Z7b.Z7c.D
		}
		if x.Z7b != nil {
			l[5] = &x.Z7b.C
		}
		if x.Z7b != nil && x.Z7b.Z7d != nil {
			l[6] = &x.Z7b.Z7d.a
		}
		if x.Z7b != nil && x.Z7b.Z7d != nil {
			l[7] = &x.Z7b.Z7d.B
		}
		l[8] = &x.A
		l[9] = (*int)(&x.ZN7)
		l[10] = &x.Z7c.A
		l[11] = &x.Z7c.C
		l[12] = &x.Z7c.D
		_ = x
		return l
	},
		[]bool{true, true, true, true}, [][]int{{}, {0}, {0}, {0, 2}},
		[]zm{{"a", 8, false, false, nil, -1, []int{}}, {"ZN7", 9, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z10a{}
		if !null(0) {
			x.Z10c = &Z10c{}
		}
		if x.Z10c != nil && !null(1) {
			x.Z10c.Z10d = &Z10d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z10a)
		l := make([]*int, 5)
		l[0] = &x.A
		if x.Z10c != nil && x.Z10c.Z10d != nil {
			l[1] = &x.Z10c.Z10d.C
		}
		if x.Z10c != nil && x.Z10c.Z10d != nil {
			l[2] = &x.Z10c.Z10d.D
		}
		l[3] = &x.Z10b.a
		l[4] = (*int)(&x.Z10b.zn10)
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {0}},
		[]zm{{"B", 0, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{}, 0, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z12a{}
		if !null(0) {
			x.Z12b.z12e = &z12e{}
		}
		if !null(1) {
			x.Z12b.Z12c = &Z12c{}
		}
		if x.Z12b.Z12c != nil && !null(2) {
			x.Z12b.Z12c.Z12d = &Z12d{}
		}
		if !null(3) {
			x.Z12c.Z12d = &Z12d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z12a)
		l := make([]*int, 10)
		l[0] = &x.A
		if x.Z12b.z12e != nil {
			l[1] = &x.Z12b.z12e.A
		}
		if x.Z12b.Z12c != nil {
			l[2] = &x.Z12b.Z12c.B
		}
		if x.Z12b.Z12c != nil && x.Z12b.Z12c.Z12d != nil {
			l[3] = &x.Z12b.Z12c.Z12d.a
		}
		if x.Z12b.Z12c != nil && x.Z12b.Z12c.Z12d != nil {
			l[4] = &x.Z12b.Z12c.Z12d.A
		}
		if x.Z12b.Z12c != nil {
			l[5] = &x.Z12b.Z12c.A
		}
		l[6] = &x.Z12c.B
		if x.Z12c.Z12d != nil {
			l[7] = &x.Z12c.Z12d.a
		}
		if x.Z12c.Z12d != nil {
			l[8] = &x.Z12c.Z12d.A
		}
		l[9] = &x.Z12c.A
		_ = x
		return l
	},
		[]bool{false, true, true, true}, [][]int{{}, {}, {1}, {}},
		[]zm{{"b", 0, false, true, nil, -1, []int{}}, {"A", 1, false, false, nil, -1, []int{0}}, {"ab", 9, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z14a{}
		if !null(0) {
			x.Z14g = &Z14g{}
		}
		if !null(1) {
			x.Z14b.z14f = &z14f{}
		}
		if !null(2) {
			x.Z14b.Z14c.Z14e = &Z14e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z14a)
		l := make([]*int, 10)
		l[0] = (*int)(&x.ZN14)
		l[1] = &x.A
		if x.Z14b.z14f != nil {
			l[2] = &x.Z14b.z14f.A
		}
		if x.Z14b.z14f != nil {
			l[3] = &x.Z14b.z14f.D
		}
		l[4] = &x.Z14b.B
		l[5] = &x.Z14b.Z14c.B
		l[6] = &x.Z14b.Z14c.a
		if x.Z14b.Z14c.Z14e != nil {
			l[7] = &x.Z14b.Z14c.Z14e.Ab
		}
		if x.Z14b.Z14c.Z14e != nil {
			l[8] = (*int)(&x.Z14b.Z14c.Z14e.zn14)
		}
		if x.Z14b.Z14c.Z14e != nil {
			l[9] = &x.Z14b.Z14c.Z14e.B
		}
		_ = x
		return l
	},
		[]bool{true, false, true}, [][]int{{}, {}, {}},
		[]zm{{"ZN14", 0, false, false, nil, -1, []int{}}, {"B", 1, false, false, nil, -1, []int{}}, {"c", 3, true, true, nil, -1, []int{1}}, {"A", 4, false, false, nil, -1, []int{}}, {"ab", 5, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"c", 7, true, true, nil, -1, []int{}}, {"b", 9, false, false, nil, -1, []int{}}}, 2, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z19a{}
		if !null(0) {
			x.Z19b = &Z19b{}
		}
		if x.Z19b != nil && !null(1) {
			x.Z19b.Z19d = &Z19d{}
		}
		if x.Z19b != nil && !null(2) {
			x.Z19b.Z19c = &Z19c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z19a)
		l := make([]*int, 9)
		if x.Z19b != nil && x.Z19b.Z19d != nil {
			l[0] = (*int)(&x.Z19b.Z19d.Z19e.ZN19)
		}
		if x.Z19b != nil && x.Z19b.Z19d != nil {
			l[1] = &x.Z19b.Z19d.D
		}
		if x.Z19b != nil && x.Z19b.Z19d != nil {
			l[2] = &x.Z19b.Z19d.Ab
		}
		if x.Z19b != nil && x.Z19b.Z19c != nil {
			l[3] = (*int)(&x.Z19b.Z19c.zn19)
		}
		if x.Z19b != nil && x.Z19b.Z19c != nil {
			l[4] = &x.Z19b.Z19c.C
		}
		if x.Z19b != nil {
			l[5] = &x.Z19b.Ab
		}
		l[6] = &x.B
		l[7] = (*int)(&x.Z19c.zn19)
		l[8] = &x.Z19c.C
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {0}, {0}},
		[]zm{{"c", -1, true, false, []zm{{"a", 0, false, false, nil, -1, []int{}}}, 1, []int{0}}, {"B", 6, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"a", 8, true, false, nil, -1, []int{}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z20a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z20a)
		l := make([]*int, 2)
		l[0] = (*int)(&x.ZN20)
		l[1] = &x.C
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[]zm{{"b", 0, true, false, nil, -1, []int{}}, {"C", 1, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z21a{}
		if !null(0) {
			x.Z21b.z21c = &z21c{}
		}
		if x.Z21b.z21c != nil && !null(1) {
			x.Z21b.z21c.Z21d = &Z21d{}
		}
		if !null(2) {
			x.z21e.Z21f = &Z21f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z21a)
		l := make([]*int, 4)
		if x.Z21b.z21c != nil {
			l[0] = &x.Z21b.z21c.a
		}
		l[1] = &x.z21e.C
		l[2] = &x.z21e.B
		l[3] = &x.D
		_ = x
		return l
	},
		[]bool{false, true, true}, [][]int{{}, {0}, {}},
		[]zm{{"-", 1, false, false, nil, -1, []int{}}, {"a<", 2, false, false, nil, -1, []int{}}, {"B", 3, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z22a{}
		if !null(0) {
			x.Z22b.Z22c = &Z22c{}
		}
		if !null(1) {
			x.Z22b.Z22d = &Z22d{}
		}
		if !null(2) {
			x.Z22f = &Z22f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z22a)
		l := make([]*int, 11)
		l[0] = &x.B
		l[1] = &x.Z22b.Ab
		if x.Z22b.Z22c != nil {
			l[2] = &x.Z22b.Z22c.Ab
		}
		l[3] = &x.Z22b.C
		if x.Z22b.Z22d != nil {
			l[4] = (*int)(&x.Z22b.Z22d.ZN22)
		}
		if x.Z22b.Z22d != nil {
			l[5] = &x.Z22b.Z22d.a
		}
		if x.Z22b.Z22d != nil {
			l[6] = &x.Z22b.Z22d.A
		}
		if x.Z22b.Z22d != nil {
			l[7] = &x.Z22b.Z22d.Z22e.B
		}
		l[8] = &x.Ab
		if x.Z22f != nil {
			l[9] = &x.Z22f.a
		}
		if x.Z22f != nil {
			l[10] = &x.Z22f.D
		}
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {}, {}},
		[]zm{{"c", 0, false, false, nil, -1, []int{}}, {"-", 3, true, false, nil, -1, []int{}}, {"ab", 6, false, false, nil, -1, []int{1}}, {"B", 8, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z23a{}
		if !null(0) {
			x.Z23b = &Z23b{}
		}
		if x.Z23b != nil && !null(1) {
			x.Z23b.Z23f = &Z23f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z23a)
		l := make([]*int, 15)
		l[0] = &x.D
		l[1] = &x.B
		if x.Z23b != nil && x.Z23b.Z23f != nil {
			l[2] = &x.Z23b.Z23f.Z23h.Ab
		}
		if x.Z23b != nil && x.Z23b.Z23f != nil {
			l[3] = (*int)(&x.Z23b.Z23f.Z23h.ZN23)
		}
		if x.Z23b != nil && x.Z23b.Z23f != nil {
			l[4] = &x.Z23b.Z23f.Z23h.a
		}
		if x.Z23b != nil && x.Z23b.Z23f != nil {
			l[5] = &x.Z23b.Z23f.Z23g.Ab
		}
		if x.Z23b != nil && x.Z23b.Z23f != nil {
			l[6] = &x.Z23b.Z23f.Z23g.D
		}
		if x.Z23b != nil && x.Z23b.Z23f != nil {
			l[7] = &x.Z23b.Z23f.Z23g.B
		}
		if x.Z23b != nil {
			l[8] = &x.Z23b.B
		}
		if x.Z23b != nil {
			l[9] = &x.Z23b.a
		}
		if x.Z23b != nil {
			l[10] = (*int)(&x.Z23b.z23c.Z23e.ZN23)
		}
		if x.Z23b != nil {
			l[11] = (*int)(&x.Z23b.z23c.ZN23)
		}
		if x.Z23b != nil {
			l[12] = &x.Z23b.z23c.Z23d.C
		}
		if x.Z23b != nil {
			l[13] = &x.Z23b.z23c.Z23d.B
		}
		if x.Z23b != nil {
			l[14] = (*int)(&x.Z23b.ZN23)
		}
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {0}},
		[]zm{{"D", 0, false, true, nil, -1, []int{}}, {"c", -1, false, false, []zm{}, -1, []int{}}, {"ZN23", 11, false, false, nil, -1, []int{0}}, {"B", 13, false, false, nil, -1, []int{0}}}},
	{func(null func(int) bool) interface{} {
		x := &Z24a{}
		if !null(0) {
			x.Z24b.z24f.Z24g = &Z24g{}
		}
		if !null(1) {
			x.Z24b.Z24c = &Z24c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z24a)
		l := make([]*int, 8)
		l[0] = (*int)(&x.zn24)
		l[1] = &x.Ab
		l[2] = &x.Z24b.z24f.a
		if x.Z24b.Z24c != nil {
			l[3] = &x.Z24b.Z24c.Z24e.a
		}
		if x.Z24b.Z24c != nil {
			l[4] = &x.Z24b.Z24c.Z24e.B
		}
		if x.Z24b.Z24c != nil {
			l[5] = (*int)(&x.Z24b.Z24c.Z24d.ZN24)
		}
		if x.Z24b.Z24c != nil {
			l[6] = &x.Z24b.Z24c.D
		}
		l[7] = &x.Z24b.Ab
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {}},
		[]zm{{"B", 1, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"B", 4, true, false, nil, -1, []int{1}}, {"a<", 6, false, false, nil, -1, []int{1}}, {"c", 7, true, true, nil, -1, []int{}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z26a{}
		if !null(0) {
			x.Z26b.Z26c = &Z26c{}
		}
		if x.Z26b.Z26c != nil && !null(1) {
			x.Z26b.Z26c.Z26e = &Z26e{}
		}
		if x.Z26b.Z26c != nil && !null(2) {
			x.Z26b.Z26c.Z26d = &Z26d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z26a)
		l := make([]*int, 12)
		l[0] = &x.D
		l[1] = &x.Z26b.Ab
		if x.Z26b.Z26c != nil && x.Z26b.Z26c.Z26e != nil {
			l[2] = &x.Z26b.Z26c.Z26e.A
		}
		if x.Z26b.Z26c != nil && x.Z26b.Z26c.Z26e != nil {
			l[3] = &x.Z26b.Z26c.Z26e.Ab
		}
		if x.Z26b.Z26c != nil && x.Z26b.Z26c.Z26d != nil {
			l[4] = &x.Z26b.Z26c.Z26d.C
		}
		if x.Z26b.Z26c != nil && x.Z26b.Z26c.Z26d != nil {
			l[5] = &x.Z26b.Z26c.Z26d.a
		}
		if x.Z26b.Z26c != nil && x.Z26b.Z26c.Z26d != nil {
			l[6] = &x.Z26b.Z26c.Z26d.B
		}
		if x.Z26b.Z26c != nil {
			l[7] = &x.Z26b.Z26c.C
		}
		l[8] = (*int)(&x.Z26b.ZN26)
		l[9] = &x.Z26e.A
		l[10] = &x.Z26e.Ab
		l[11] = &x.A
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {0}, {0}},
		[]zm{{"é", 0, false, false, nil, -1, []int{}}, {"b", 8, true, false, nil, -1, []int{}}, {"a<", 11, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z27a{}
		if !null(0) {
			x.Z27e.z27f.Z27g = &Z27g{}
		}
		if !null(1) {
			x.Z27b.Z27c = &Z27c{}
		}
		if !null(2) {
			x.Z27d = &Z27d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z27a)
		l := make([]*int, 10)
		l[0] = &x.Z27e.z27f.Ab
		if x.Z27e.z27f.Z27g != nil {
			l[1] = (*int)(&x.Z27e.z27f.Z27g.ZN27)
		}
		if x.Z27e.z27f.Z27g != nil {
			l[2] = &x.Z27e.z27f.Z27g.a
		}
		l[3] = &x.Z27e.z27f.D
		l[4] = (*int)(&x.Z27b.ZN27)
		if x.Z27b.Z27c != nil {
			l[5] = (*int)(&x.Z27b.Z27c.ZN27)
		}
		if x.Z27b.Z27c != nil {
			l[6] = &x.Z27b.Z27c.D
		}
		l[7] = &x.Z27b.Ab
		l[8] = &x.C
		l[9] = &x.a
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {}, {}},
		[]zm{{"ZN27", 1, false, false, nil, -1, []int{0}}, {"D", 3, false, true, nil, -1, []int{}}, {"b", 4, true, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{}, -1, []int{1}}, {"-", 6, false, false, nil, -1, []int{1}}, {"Ab", 7, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{}, 2, []int{}}, {"C", 8, false, true, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z28a{}
		if !null(0) {
			x.Z28e.Z28f = &Z28f{}
		}
		if x.Z28e.Z28f != nil && !null(1) {
			x.Z28e.Z28f.Z28d = &Z28d{}
		}
		if !null(2) {
			x.Z28b.Z28c.Z28d = &Z28d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z28a)
		l := make([]*int, 14)
		l[0] = &x.Z28e.B
		if x.Z28e.Z28f != nil {
			l[1] = &x.Z28e.Z28f.z28g.B
		}
		if x.Z28e.Z28f != nil {
			l[2] = &x.Z28e.Z28f.z28g.Ab
		}
		if x.Z28e.Z28f != nil {
			l[3] = (*int)(&x.Z28e.Z28f.z28g.ZN28)
		}
		if x.Z28e.Z28f != nil && x.Z28e.Z28f.Z28d != nil {
			l[4] = &x.Z28e.Z28f.Z28d.a
		}
		if x.Z28e.Z28f != nil && x.Z28e.Z28f.Z28d != nil {
			l[5] = &x.Z28e.Z28f.Z28d.Ab
		}
		if x.Z28e.Z28f != nil && x.Z28e.Z28f.Z28d != nil {
			l[6] = &x.Z28e.Z28f.Z28d.C
		}
		if x.Z28b.Z28c.Z28d != nil {
			l[7] = &x.Z28b.Z28c.Z28d.a
		}
		if x.Z28b.Z28c.Z28d != nil {
			l[8] = &x.Z28b.Z28c.Z28d.Ab
		}
		if x.Z28b.Z28c.Z28d != nil {
			l[9] = &x.Z28b.Z28c.Z28d.C
		}
		l[10] = (*int)(&x.Z28b.zn28)
		l[11] = &x.Z28b.D
		l[12] = &x.a
		l[13] = &x.C
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {0}, {}},
		[]zm{{"c", -1, false, false, []zm{{"D", 11, false, false, nil, -1, []int{}}}, -1, []int{}}, {"a", 13, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z30a{}
		if !null(0) {
			x.Z30b = &Z30b{}
		}
		if !null(1) {
			x.Z30d.Z30e = &Z30e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z30a)
		l := make([]*int, 5)
		if x.Z30b != nil {
			l[0] = (*int)(&x.Z30b.Z30c.zn30)
		}
		if x.Z30d.Z30e != nil {
			l[1] = &x.Z30d.Z30e.A
		}
		l[2] = (*int)(&x.zn30)
		l[3] = &x.Ab
		l[4] = &x.B
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {}},
		[]zm{{"c", -1, true, false, []zm{{"A", 1, false, false, nil, -1, []int{}}}, 1, []int{}}, {"B", 3, false, false, nil, -1, []int{}}, {"a<", 4, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z31a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z31a)
		l := make([]*int, 3)
		l[0] = &x.A
		l[1] = &x.Ab
		l[2] = (*int)(&x.Z31b.Z31c.ZN31)
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[]zm{{"B", 1, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"ZN31", 2, false, false, nil, -1, []int{}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z32a{}
		if !null(0) {
			x.Z32b.Z32d = &Z32d{}
		}
		if x.Z32b.Z32d != nil && !null(1) {
			x.Z32b.Z32d.Z32e = &Z32e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z32a)
		l := make([]*int, 12)
		l[0] = &x.Z32b.Z32c.D
		l[1] = &x.Z32b.B
		if x.Z32b.Z32d != nil {
			l[2] = &x.Z32b.Z32d.B
		}
		if x.Z32b.Z32d != nil {
			l[3] = (*int)(&x.Z32b.Z32d.zn32)
		}
		l[4] = &x.Z32b.a
		l[5] = &x.Z32b.A
		l[6] = &x.Z32b.Z32f.Z32g.D
		l[7] = &x.Z32b.Z32f.Z32g.A
		l[8] = &x.Z32b.Z32f.Z32g.Ab
		l[9] = &x.a
		l[10] = &x.D
		l[11] = &x.Ab
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {0}},
		[]zm{{"c", -1, true, false, []zm{}, 1, []int{0}}, {"a<", 2, false, false, nil, -1, []int{0}}, {"A", 5, false, false, nil, -1, []int{}}, {"D", 6, true, false, nil, -1, []int{}}, {"ab", 7, false, false, nil, -1, []int{}}, {"-", 10, false, true, nil, -1, []int{}}, {"B", 11, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z34a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z34a)
		l := make([]*int, 9)
		l[0] = &x.Z34b.Z34c.z34e.A
		l[1] = &x.Z34b.Z34c.z34e.B
		l[2] = &x.Z34b.Z34c.Z34f.D
		l[3] = &x.Z34b.Z34c.Z34f.Ab
		l[4] = &x.Z34b.Z34c.z34d.Ab
		l[5] = &x.Z34b.Z34c.z34d.B
		l[6] = &x.Z34b.Ab
		l[7] = &x.B
		l[8] = &x.Ab
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[]zm{{"a", -1, false, false, []zm{{"é", 0, false, false, nil, -1, []int{}}, {"D", 2, false, true, nil, -1, []int{}}, {"B", 3, false, false, nil, -1, []int{}}, {"Ab", 4, false, false, nil, -1, []int{}}, {"ab", 6, false, false, nil, -1, []int{}}}, -1, []int{}}, {"B", 7, true, false, nil, -1, []int{}}, {"Ab", 8, false, true, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z35a{}
		if !null(0) {
			x.Z35e.Z35f.Z35g = &Z35g{}
		}
		if !null(1) {
			x.Z35e.Z35f.z35h = &z35h{}
		}
		if !null(2) {
			x.Z35e.Z35f.z35d = &z35d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z35a)
		l := make([]*int, 10)
		l[0] = &x.Z35e.Z35f.B
		if x.Z35e.Z35f.z35h != nil {
			l[1] = &x.Z35e.Z35f.z35h.A
		}
		l[2] = &x.Z35e.Z35f.A
		if x.Z35e.Z35f.z35d != nil {
			l[3] = &x.Z35e.Z35f.z35d.D
		}
		l[4] = &x.Z35b.a
		l[5] = &x.Z35b.A
		l[6] = &x.Z35b.B
		l[7] = (*int)(&x.Z35b.z35c.ZN35)
		l[8] = &x.Z35b.z35c.z35d.D
		l[9] = &x.D
		_ = x
		return l
	},
		[]bool{true, false, false}, [][]int{{}, {}, {}},
		[]zm{{"a", -1, false, false, []zm{{"-", 0, false, true, nil, -1, []int{}}, {"A", 1, false, false, nil, -1, []int{1}}, {"a", 2, false, false, nil, -1, []int{}}, {"b", 3, false, false, nil, -1, []int{2}}}, -1, []int{}}, {"A", 5, false, false, nil, -1, []int{}}, {"B", 6, false, false, nil, -1, []int{}}, {"b", 7, true, false, nil, -1, []int{}}, {"D", 9, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z37a{}
		if !null(0) {
			x.z37b.Z37e = &Z37e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z37a)
		l := make([]*int, 12)
		l[0] = (*int)(&x.z37b.zn37)
		if x.z37b.Z37e != nil {
			l[1] = &x.z37b.Z37e.Z37g.A
		}
		if x.z37b.Z37e != nil {
			l[2] = &x.z37b.Z37e.Z37f.D
		}
		if x.z37b.Z37e != nil {
			l[3] = &x.z37b.Z37e.Z37f.Ab
		}
		if x.z37b.Z37e != nil {
			l[4] = &x.z37b.Z37e.Z37f.C
		}
		l[5] = &x.z37b.Z37c.D
		l[6] = (*int)(&x.z37b.Z37c.zn37)
		l[7] = &x.z37b.a
		l[8] = &x.C
		l[9] = &x.Z37f.D
		l[10] = &x.Z37f.Ab
		l[11] = &x.Z37f.C
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"B", 1, false, false, nil, -1, []int{0}}, {"A", 2, false, false, nil, -1, []int{0}}, {"Ab", 3, false, false, nil, -1, []int{0}}, {"a<", 5, false, false, nil, -1, []int{}}, {"C", 8, false, true, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"A", 9, false, false, nil, -1, []int{}}, {"Ab", 10, false, false, nil, -1, []int{}}, {"C", 11, false, false, nil, -1, []int{}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z38a{}
		if !null(0) {
			x.Z38b = &Z38b{}
		}
		if x.Z38b != nil && !null(1) {
			x.Z38b.Z38e = &Z38e{}
		}
		if x.Z38b != nil && !null(2) {
			x.Z38b.z38c = &z38c{}
		}
		if x.Z38b != nil && x.Z38b.z38c != nil && !null(3) {
			x.Z38b.z38c.z38d = &z38d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z38a)
		l := make([]*int, 12)
		l[0] = &x.C
		if x.Z38b != nil && x.Z38b.Z38e != nil {
			l[1] = &x.Z38b.Z38e.D
		}
		if x.Z38b != nil && x.Z38b.Z38e != nil {
			l[2] = &x.Z38b.Z38e.Ab
		}
		if x.Z38b != nil && x.Z38b.z38c != nil {
			l[3] = &x.Z38b.z38c.Z38e.D
		}
		if x.Z38b != nil && x.Z38b.z38c != nil {
			l[4] = &x.Z38b.z38c.Z38e.Ab
		}
		if x.Z38b != nil && x.Z38b.z38c != nil && x.Z38b.z38c.z38d != nil {
			l[5] = &x.Z38b.z38c.z38d.A
		}
		if x.Z38b != nil && x.Z38b.z38c != nil && x.Z38b.z38c.z38d != nil {
			l[6] = &x.Z38b.z38c.z38d.D
		}
		if x.Z38b != nil && x.Z38b.z38c != nil {
			l[7] = &x.Z38b.z38c.Ab
		}
		if x.Z38b != nil && x.Z38b.z38c != nil {
			l[8] = &x.Z38b.z38c.A
		}
		if x.Z38b != nil && x.Z38b.z38c != nil {
			l[9] = &x.Z38b.z38c.B
		}
		if x.Z38b != nil {
			l[10] = &x.Z38b.C
		}
		if x.Z38b != nil {
			l[11] = &x.Z38b.D
		}
		_ = x
		return l
	},
		[]bool{true, true, false, false}, [][]int{{}, {0}, {0}, {0, 2}},
		[]zm{{"a", 0, true, false, nil, -1, []int{}}, {"-", 1, false, true, nil, -1, []int{0, 1}}, {"c", 2, true, true, nil, -1, []int{0, 1}}, {"D", 6, false, false, nil, -1, []int{0, 2, 3}}, {"Ab", 7, false, true, nil, -1, []int{0, 2}}, {"A", 8, false, false, nil, -1, []int{0, 2}}, {"b", 9, false, true, nil, -1, []int{0, 2}}, {"ab", 10, false, false, nil, -1, []int{0}}, {"a<", 11, false, false, nil, -1, []int{0}}}},
	{func(null func(int) bool) interface{} {
		x := &Z40a{}
		if !null(0) {
			x.Z40d = &Z40d{}
		}
		if !null(1) {
			x.Z40b.z40c = &z40c{}
		}
		if x.Z40b.z40c != nil && !null(2) {
			x.Z40b.z40c.Z40d = &Z40d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z40a)
		l := make([]*int, 8)
		l[0] = &x.D
		l[1] = &x.A
		if x.Z40d != nil {
			l[2] = &x.Z40d.Ab
		}
		l[3] = &x.Z40b.A
		if x.Z40b.z40c != nil {
			l[4] = &x.Z40b.z40c.B
		}
		if x.Z40b.z40c != nil {
			l[5] = &x.Z40b.z40c.C
		}
		if x.Z40b.z40c != nil && x.Z40b.z40c.Z40d != nil {
			l[6] = &x.Z40b.z40c.Z40d.Ab
		}
		if x.Z40b.z40c != nil {
			l[7] = &x.Z40b.z40c.D
		}
		_ = x
		return l
	},
		[]bool{true, false, true}, [][]int{{}, {}, {1}},
		[]zm{{"-", 0, true, false, nil, -1, []int{}}, {"B", 1, false, false, nil, -1, []int{}}, {"a", 2, true, false, nil, -1, []int{0}}, {"c", -1, false, false, []zm{{"c", 3, true, true, nil, -1, []int{}}, {"B", 4, false, false, nil, -1, []int{1}}, {"C", 5, false, false, nil, -1, []int{1}}, {"a", 7, true, false, nil, -1, []int{1}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z41a{}
		if !null(0) {
			x.Z41b.Z41f = &Z41f{}
		}
		if x.Z41b.Z41f != nil && !null(1) {
			x.Z41b.Z41f.z41e = &z41e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z41a)
		l := make([]*int, 9)
		l[0] = &x.B
		l[1] = &x.Z41b.a
		l[2] = &x.Z41b.Z41c.B
		l[3] = &x.Z41b.Z41c.C
		l[4] = &x.Z41b.Z41c.z41e.A
		if x.Z41b.Z41f != nil {
			l[5] = &x.Z41b.Z41f.B
		}
		if x.Z41b.Z41f != nil && x.Z41b.Z41f.z41e != nil {
			l[6] = &x.Z41b.Z41f.z41e.A
		}
		l[7] = &x.C
		l[8] = &x.z41e.A
		_ = x
		return l
	},
		[]bool{true, false}, [][]int{{}, {0}},
		[]zm{{"c", -1, false, false, []zm{{"B", 2, false, false, nil, -1, []int{}}, {"C", 3, false, false, nil, -1, []int{}}, {"c", 5, true, true, nil, -1, []int{0}}}, -1, []int{}}, {"a<", 7, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"b", 8, false, false, nil, -1, []int{}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z43a{}
		if !null(0) {
			x.Z43b.Z43c = &Z43c{}
		}
		if !null(1) {
			x.Z43b.Z43d.z43e = &z43e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z43a)
		l := make([]*int, 9)
		l[0] = &x.B
		l[1] = &x.Ab
		if x.Z43b.Z43c != nil {
			l[2] = &x.Z43b.Z43c.A
		}
		if x.Z43b.Z43c != nil {
			l[3] = &x.Z43b.Z43c.B
		}
		if x.Z43b.Z43d.z43e != nil {
			l[4] = &x.Z43b.Z43d.z43e.Ab
		}
		if x.Z43b.Z43d.z43e != nil {
			l[5] = &x.Z43b.Z43d.z43e.C
		}
		l[6] = &x.Z43b.Z43d.Ab
		l[7] = &x.Z43b.Z43d.B
		l[8] = &x.A
		_ = x
		return l
	},
		[]bool{true, false}, [][]int{{}, {}},
		[]zm{{"B", 0, false, false, nil, -1, []int{}}, {"A", 1, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"-", 2, true, false, nil, -1, []int{}}, {"b", 3, false, false, nil, -1, []int{}}}, 0, []int{}}, {"C", 5, true, false, nil, -1, []int{1}}, {"Ab", 6, true, false, nil, -1, []int{}}, {"b", 7, false, true, nil, -1, []int{}}, {"c", 8, true, true, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z44a{}
		if !null(0) {
			x.Z44b.Z44c.z44d = &z44d{}
		}
		if !null(1) {
			x.Z44c.z44d = &z44d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z44a)
		l := make([]*int, 10)
		l[0] = &x.D
		l[1] = &x.Z44b.A
		l[2] = &x.Z44b.Ab
		if x.Z44b.Z44c.z44d != nil {
			l[3] = &x.Z44b.Z44c.z44d.a
		}
		l[4] = &x.Z44b.Z44c.D
		l[5] = &x.Z44b.Z44c.A
		l[6] = &x.Ab
		if x.Z44c.z44d != nil {
			l[7] = &x.Z44c.z44d.a
		}
		l[8] = &x.Z44c.D
		l[9] = &x.Z44c.A
		_ = x
		return l
	},
		[]bool{false, false}, [][]int{{}, {}},
		[]zm{{"D", 0, false, true, nil, -1, []int{}}, {"é", 2, false, false, nil, -1, []int{}}, {"a<", 6, false, false, nil, -1, []int{}}, {"A", 9, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z45a{}
		if !null(0) {
			x.Z45b.Z45c = &Z45c{}
		}
		if x.Z45b.Z45c != nil && !null(1) {
			x.Z45b.Z45c.z45d = &z45d{}
		}
		if !null(2) {
			x.Z45b.z45e = &z45e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z45a)
		l := make([]*int, 11)
		l[0] = (*int)(&x.ZN45)
		l[1] = &x.B
		if x.Z45b.Z45c != nil && x.Z45b.Z45c.z45d != nil {
			l[2] = &x.Z45b.Z45c.z45d.a
		}
		if x.Z45b.Z45c != nil {
			l[3] = &x.Z45b.Z45c.D
		}
		if x.Z45b.Z45c != nil {
			l[4] = &x.Z45b.Z45c.Ab
		}
		if x.Z45b.Z45c != nil {
			l[5] = &x.Z45b.Z45c.B
		}
		if x.Z45b.z45e != nil {
			l[6] = &x.Z45b.z45e.Ab
		}
		if x.Z45b.z45e != nil {
			l[7] = (*int)(&x.Z45b.z45e.zn45)
		}
		if x.Z45b.z45e != nil {
			l[8] = &x.Z45b.z45e.A
		}
		l[9] = &x.Z45b.D
		l[10] = &x.Z45b.B
		_ = x
		return l
	},
		[]bool{true, false, false}, [][]int{{}, {0}, {}},
		[]zm{{"ZN45", 0, false, false, nil, -1, []int{}}, {"B", 1, false, true, nil, -1, []int{}}, {"D", 3, false, false, nil, -1, []int{0}}, {"b", 4, false, true, nil, -1, []int{0}}, {"a", 6, true, false, nil, -1, []int{2}}, {"a<", 8, false, false, nil, -1, []int{2}}}},
	{func(null func(int) bool) interface{} {
		x := &Z46a{}
		if !null(0) {
			x.Z46d = &Z46d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z46a)
		l := make([]*int, 6)
		l[0] = (*int)(&x.Z46b.Z46c.ZN46)
		l[1] = &x.a
		if x.Z46d != nil {
			l[2] = &x.Z46d.B
		}
		l[3] = &x.D
		l[4] = &x.Ab
		l[5] = &x.C
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"ZN46", 0, false, false, nil, -1, []int{}}, {"c", -1, true, false, []zm{{"A", 2, false, false, nil, -1, []int{}}}, 0, []int{}}, {"A", 3, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z47a{}
		if !null(0) {
			x.z47b = &z47b{}
		}
		if x.z47b != nil && !null(1) {
			x.z47b.Z47e = &Z47e{}
		}
		if x.z47b != nil && x.z47b.Z47e != nil && !null(2) {
			x.z47b.Z47e.z47f = &z47f{}
		}
		if !null(3) {
			x.Z47g = &Z47g{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z47a)
		l := make([]*int, 11)
		if x.z47b != nil && x.z47b.Z47e != nil {
			l[0] = &x.z47b.Z47e.Z47d.A
		}
		if x.z47b != nil && x.z47b.Z47e != nil {
			l[1] = &x.z47b.Z47e.D
		}
		if x.z47b != nil && x.z47b.Z47e != nil && x.z47b.Z47e.z47f != nil {
			l[2] = &x.z47b.Z47e.z47f.B
		}
		if x.z47b != nil {
			l[3] = (*int)(&x.z47b.zn47)
		}
		if x.z47b != nil {
			l[4] = &x.z47b.a
		}
		if x.z47b != nil {
			l[5] = &x.z47b.Z47c.Z47d.A
		}
		if x.z47b != nil {
			l[6] = &x.z47b.D
		}
		l[7] = &x.D
		if x.Z47g != nil {
			l[8] = &x.Z47g.D
		}
		if x.Z47g != nil {
			l[9] = (*int)(&x.Z47g.ZN47)
		}
		l[10] = &x.C
		_ = x
		return l
	},
		[]bool{false, true, false, true}, [][]int{{}, {0}, {0, 1}, {}},
		[]zm{{"-", 0, false, true, nil, -1, []int{0, 1}}, {"D", 1, true, false, nil, -1, []int{0, 1}}, {"ab", 2, false, false, nil, -1, []int{0, 1, 2}}, {"a<", 7, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z49a{}
		if !null(0) {
			x.Z49b = &Z49b{}
		}
		if x.Z49b != nil && !null(1) {
			x.Z49b.Z49e.Z49f = &Z49f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z49a)
		l := make([]*int, 14)
		l[0] = &x.C
		l[1] = &x.B
		if x.Z49b != nil {
			l[2] = &x.Z49b.Ab
		}
		if x.Z49b != nil {
			l[3] = &x.Z49b.Z49d.Ab
		}
		if x.Z49b != nil {
			l[4] = &x.Z49b.Z49d.C
		}
		if x.Z49b != nil {
			l[5] = &x.Z49b.B
		}
		if x.Z49b != nil {
			l[6] = (*int)(&x.Z49b.zn49)
		}
		if x.Z49b != nil {
			l[7] = &x.Z49b.Z49c.Ab
		}
		if x.Z49b != nil {
			l[8] = &x.Z49b.Z49c.C
		}
		if x.Z49b != nil {
			l[9] = &x.Z49b.Z49e.B
		}
		if x.Z49b != nil && x.Z49b.Z49e.Z49f != nil {
			l[10] = &x.Z49b.Z49e.Z49f.D
		}
		if x.Z49b != nil && x.Z49b.Z49e.Z49f != nil {
			l[11] = &x.Z49b.Z49e.Z49f.C
		}
		if x.Z49b != nil && x.Z49b.Z49e.Z49f != nil {
			l[12] = &x.Z49b.Z49e.Z49f.a
		}
		if x.Z49b != nil {
			l[13] = &x.Z49b.Z49e.Ab
		}
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {0}},
		[]zm{{"C", 0, false, false, nil, -1, []int{}}, {"B", 1, false, true, nil, -1, []int{}}, {"A", 2, false, false, nil, -1, []int{0}}, {"c", 5, true, true, nil, -1, []int{0}}, {"a", -1, false, false, []zm{{"b", 7, false, false, nil, -1, []int{}}, {"C", 8, false, false, nil, -1, []int{}}}, -1, []int{0}}, {"D", 10, false, false, nil, -1, []int{0, 1}}, {"Ab", 13, false, false, nil, -1, []int{0}}}},
	{func(null func(int) bool) interface{} {
		x := &Z50a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z50a)
		l := make([]*int, 5)
		l[0] = &x.z50b.Z50c.A
		l[1] = &x.z50b.Z50c.z50d.C
		l[2] = &x.z50b.Ab
		l[3] = &x.z50d.C
		l[4] = &x.C
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[]zm{{"-", 2, false, true, nil, -1, []int{}}, {"a", 3, false, false, nil, -1, []int{}}, {"B", 4, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z51a{}
		if !null(0) {
			x.Z51c = &Z51c{}
		}
		if !null(1) {
			x.Z51b = &Z51b{}
		}
		if x.Z51b != nil && !null(2) {
			x.Z51b.Z51f = &Z51f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z51a)
		l := make([]*int, 9)
		l[0] = &x.Ab
		if x.Z51b != nil && x.Z51b.Z51f != nil {
			l[1] = &x.Z51b.Z51f.Ab
		}
		if x.Z51b != nil && x.Z51b.Z51f != nil {
			l[2] = &x.Z51b.Z51f.C
		}
		if x.Z51b != nil && x.Z51b.Z51f != nil {
			l[3] = &x.Z51b.Z51f.A
		}
		if x.Z51b != nil {
			l[4] = (*int)(&x.Z51b.Z51d.Z51e.ZN51)
		}
		if x.Z51b != nil {
			l[5] = &x.Z51b.Z51d.D
		}
		if x.Z51b != nil {
			l[6] = &x.Z51b.C
		}
		l[7] = &x.C
		l[8] = &x.A
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {}, {1}},
		[]zm{{"Ab", 0, false, false, nil, -1, []int{}}, {"B", 1, false, false, nil, -1, []int{1, 2}}, {"A", 3, true, false, nil, -1, []int{1, 2}}, {"b", 4, true, false, nil, -1, []int{1}}, {"é", 5, false, false, nil, -1, []int{1}}, {"a", 7, true, false, nil, -1, []int{}}, {"-", 8, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z52a{}
		if !null(0) {
			x.Z52b = &Z52b{}
		}
		if x.Z52b != nil && !null(1) {
			x.Z52b.Z52f.Z52g = &Z52g{}
		}
		if x.Z52b != nil && !null(2) {
			x.Z52b.Z52f.Z52h = &Z52h{}
		}
		if x.Z52b != nil && !null(3) {
			x.Z52b.Z52c.Z52d = &Z52d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z52a)
		l := make([]*int, 12)
		l[0] = &x.Z52i.Ab
		l[1] = &x.B
		if x.Z52b != nil && x.Z52b.Z52f.Z52g != nil {
			l[2] = &x.Z52b.Z52f.Z52g.C
		}
		if x.Z52b != nil && x.Z52b.Z52f.Z52g != nil {
			l[3] = &x.Z52b.Z52f.Z52g.A
		}
		if x.Z52b != nil && x.Z52b.Z52f.Z52h != nil {
			l[4] = &x.Z52b.Z52f.Z52h.B
		}
		if x.Z52b != nil && x.Z52b.Z52f.Z52h != nil {
			l[5] = &x.Z52b.Z52f.Z52h.Ab
		}
		if x.Z52b != nil {
			l[6] = &x.Z52b.Z52f.a
		}
		if x.Z52b != nil {
			l[7] = &x.Z52b.a
		}
		if x.Z52b != nil {
			l[8] = &x.Z52b.Z52c.z52e.B
		}
		if x.Z52b != nil {
			l[9] = &x.Z52b.Z52c.z52e.a
		}
		l[10] = &x.a
		l[11] = &x.Ab
		_ = x
		return l
	},
		[]bool{true, true, true, true}, [][]int{{}, {0}, {0}, {0}},
		[]zm{{"a", 1, true, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"B", 8, false, false, nil, -1, []int{}}}, -1, []int{0}}, {"Ab", 11, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z53a{}
		if !null(0) {
			x.z53b = &z53b{}
		}
		if !null(1) {
			x.z53f.z53g = &z53g{}
		}
		if !null(2) {
			x.Z53e = &Z53e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z53a)
		l := make([]*int, 15)
		l[0] = &x.C
		if x.z53b != nil {
			l[1] = &x.z53b.a
		}
		if x.z53b != nil {
			l[2] = &x.z53b.Z53c.A
		}
		if x.z53b != nil {
			l[3] = &x.z53b.Z53c.B
		}
		l[4] = &x.z53f.Z53h.D
		l[5] = &x.z53f.B
		if x.z53f.z53g != nil {
			l[6] = &x.z53f.z53g.a
		}
		l[7] = &x.z53f.Z53i.Ab
		l[8] = &x.z53f.Z53i.C
		l[9] = &x.z53f.Ab
		l[10] = &x.B
		if x.Z53e != nil {
			l[11] = &x.Z53e.D
		}
		if x.Z53e != nil {
			l[12] = &x.Z53e.a
		}
		l[13] = &x.D
		l[14] = (*int)(&x.zn53)
		_ = x
		return l
	},
		[]bool{false, false, true}, [][]int{{}, {}, {}},
		[]zm{{"C", 0, true, false, nil, -1, []int{}}, {"b", 2, false, false, nil, -1, []int{0}}, {"ab", 3, false, false, nil, -1, []int{0}}, {"D", 11, false, true, nil, -1, []int{2}}, {"a", 13, true, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z54a{}
		if !null(0) {
			x.z54c.z54h = &z54h{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z54a)
		l := make([]*int, 13)
		l[0] = &x.z54c.Ab
		if x.z54c.z54h != nil {
			l[1] = &x.z54c.z54h.B
		}
		l[2] = &x.z54c.Z54d.B
		l[3] = &x.z54c.Z54d.A
		l[4] = &x.z54c.z54e.D
		l[5] = &x.z54c.z54e.C
		l[6] = &x.z54c.z54e.Z54f.C
		l[7] = &x.z54c.z54e.Z54g.A
		l[8] = &x.z54c.z54e.Z54g.C
		l[9] = &x.z54c.z54e.A
		l[10] = (*int)(&x.zn54)
		l[11] = &x.C
		l[12] = &x.B
		_ = x
		return l
	},
		[]bool{false}, [][]int{{}},
		[]zm{{"b", 0, false, false, nil, -1, []int{}}, {"-", 3, false, false, nil, -1, []int{}}, {"a<", 11, false, false, nil, -1, []int{}}, {"a", 12, true, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z55a{}
		if !null(0) {
			x.Z55e.Z55f = &Z55f{}
		}
		if x.Z55e.Z55f != nil && !null(1) {
			x.Z55e.Z55f.z55d = &z55d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z55a)
		l := make([]*int, 9)
		l[0] = &x.D
		l[1] = &x.Z55e.A
		l[2] = &x.Z55e.D
		if x.Z55e.Z55f != nil {
			l[3] = &x.Z55e.Z55f.D
		}
		l[4] = &x.Z55e.B
		l[5] = &x.A
		l[6] = (*int)(&x.Z55b.zn55)
		l[7] = &x.Z55b.A
		l[8] = &x.Z55b.Z55c.B
		_ = x
		return l
	},
		[]bool{true, false}, [][]int{{}, {0}},
		[]zm{{"D", 0, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{}, -1, []int{}}, {"a", -1, false, false, []zm{{"b", 1, false, false, nil, -1, []int{}}, {"a<", 2, false, false, nil, -1, []int{}}, {"c", -1, true, false, []zm{{"D", 3, false, false, nil, -1, []int{}}}, 0, []int{}}, {"A", 4, false, false, nil, -1, []int{}}}, -1, []int{}}, {"é", 5, false, false, nil, -1, []int{}}, {"ab", 7, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z57a{}
		if !null(0) {
			x.z57g = &z57g{}
		}
		if !null(1) {
			x.Z57b = &Z57b{}
		}
		if x.Z57b != nil && !null(2) {
			x.Z57b.Z57c = &Z57c{}
		}
		if x.Z57b != nil && x.Z57b.Z57c != nil && !null(3) {
			x.Z57b.Z57c.z57d = &z57d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z57a)
		l := make([]*int, 11)
		if x.Z57b != nil {
			l[0] = &x.Z57b.D
		}
		if x.Z57b != nil {
			l[1] = &x.Z57b.C
		}
		if x.Z57b != nil {
			l[2] = &x.Z57b.Ab
		}
		if x.Z57b != nil {
			l[3] = &x.Z57b.z57f.D
		}
		if x.Z57b != nil && x.Z57b.Z57c != nil && x.Z57b.Z57c.z57d != nil {
			l[4] = &x.Z57b.Z57c.z57d.C
		}
		if x.Z57b != nil && x.Z57b.Z57c != nil && x.Z57b.Z57c.z57d != nil {
			l[5] = &x.Z57b.Z57c.z57d.Ab
		}
		l[6] = &x.B
		l[7] = (*int)(&x.Z57h.ZN57)
		l[8] = &x.Z57h.B
		l[9] = &x.Z57h.C
		l[10] = &x.Z57h.D
		_ = x
		return l
	},
		[]bool{false, true, true, false}, [][]int{{}, {}, {1}, {1, 2}},
		[]zm{{"B", 6, true, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z58a{}
		if !null(0) {
			x.Z58b.Z58f = &Z58f{}
		}
		if x.Z58b.Z58f != nil && !null(1) {
			x.Z58b.Z58f.z58e = &z58e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z58a)
		l := make([]*int, 14)
		l[0] = &x.Ab
		l[1] = &x.Z58b.C
		if x.Z58b.Z58f != nil {
			l[2] = &x.Z58b.Z58f.C
		}
		if x.Z58b.Z58f != nil {
			l[3] = &x.Z58b.Z58f.B
		}
		if x.Z58b.Z58f != nil && x.Z58b.Z58f.z58e != nil {
			l[4] = &x.Z58b.Z58f.z58e.B
		}
		if x.Z58b.Z58f != nil && x.Z58b.Z58f.z58e != nil {
			l[5] = &x.Z58b.Z58f.z58e.A
		}
		if x.Z58b.Z58f != nil && x.Z58b.Z58f.z58e != nil {
			l[6] = &x.Z58b.Z58f.z58e.a
		}
		l[7] = &x.Z58b.Z58c.C
		l[8] = (*int)(&x.Z58b.Z58c.ZN58)
		l[9] = &x.Z58b.Z58c.z58e.B
		l[10] = &x.Z58b.Z58c.z58e.A
		l[11] = &x.Z58b.Z58c.z58e.a
		l[12] = &x.z58g.D
		l[13] = &x.z58g.C
		_ = x
		return l
	},
		[]bool{true, false}, [][]int{{}, {0}},
		[]zm{{"Ab", 0, false, true, nil, -1, []int{}}, {"C", 1, false, false, nil, -1, []int{}}, {"B", 3, false, false, nil, -1, []int{0}}, {"b", 7, false, false, nil, -1, []int{}}, {"ZN58", 8, false, false, nil, -1, []int{}}, {"D", 12, true, false, nil, -1, []int{}}, {"a", 13, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z59a{}
		if !null(0) {
			x.Z59b.Z59c = &Z59c{}
		}
		if x.Z59b.Z59c != nil && !null(1) {
			x.Z59b.Z59c.z59e = &z59e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z59a)
		l := make([]*int, 16)
		l[0] = &x.Z59b.Z59f.C
		l[1] = &x.Z59b.D
		if x.Z59b.Z59c != nil && x.Z59b.Z59c.z59e != nil {
			l[2] = &x.Z59b.Z59c.z59e.a
		}
		if x.Z59b.Z59c != nil && x.Z59b.Z59c.z59e != nil {
			l[3] = &x.Z59b.Z59c.z59e.B
		}
		if x.Z59b.Z59c != nil {
			l[4] = &x.Z59b.Z59c.a
		}
		if x.Z59b.Z59c != nil {
			l[5] = &x.Z59b.Z59c.z59d.A
		}
		if x.Z59b.Z59c != nil {
			l[6] = &x.Z59b.Z59c.z59d.D
		}
		if x.Z59b.Z59c != nil {
			l[7] = &x.Z59b.Z59c.z59d.C
		}
		if x.Z59b.Z59c != nil {
			l[8] = &x.Z59b.Z59c.B
		}
		l[9] = &x.Z59b.B
		l[10] = (*int)(&x.Z59b.zn59)
		l[11] = &x.Z59b.C
		l[12] = &x.D
		l[13] = &x.B
		l[14] = &x.z59e.a
		l[15] = &x.z59e.B
		_ = x
		return l
	},
		[]bool{true, false}, [][]int{{}, {0}},
		[]zm{{"c", -1, false, false, []zm{{"A", 0, false, false, nil, -1, []int{}}, {"c", 1, false, false, nil, -1, []int{}}, {"b", 8, false, true, nil, -1, []int{0}}, {"a<", 9, false, false, nil, -1, []int{}}, {"a", 11, false, false, nil, -1, []int{}}}, -1, []int{}}, {"a<", 12, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z60a{}
		if !null(0) {
			x.Z60b.Z60c = &Z60c{}
		}
		if !null(1) {
			x.Z60b.Z60f = &Z60f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z60a)
		l := make([]*int, 12)
		l[0] = &x.Z60b.D
		l[1] = &x.Z60b.A
		if x.Z60b.Z60c != nil {
			l[2] = &x.Z60b.Z60c.Z60e.C
		}
		if x.Z60b.Z60f != nil {
			l[3] = &x.Z60b.Z60f.D
		}
		if x.Z60b.Z60f != nil {
			l[4] = &x.Z60b.Z60f.A
		}
		l[5] = &x.Z60b.a
		l[6] = &x.Z60g.B
		l[7] = &x.z60h.D
		l[8] = &x.z60h.A
		l[9] = &x.z60h.C
		l[10] = &x.A
		l[11] = &x.Ab
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {}},
		[]zm{{"a", -1, false, false, []zm{{"-", 7, false, false, nil, -1, []int{}}}, -1, []int{}}, {"A", 10, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z61a{}
		if !null(0) {
			x.Z61b.Z61c.Z61e = &Z61e{}
		}
		if !null(1) {
			x.Z61b.Z61c.z61d = &z61d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z61a)
		l := make([]*int, 9)
		l[0] = &x.C
		l[1] = &x.Z61e.Ab
		l[2] = &x.Z61e.A
		l[3] = &x.Ab
		if x.Z61b.Z61c.Z61e != nil {
			l[4] = &x.Z61b.Z61c.Z61e.Ab
		}
		if x.Z61b.Z61c.Z61e != nil {
			l[5] = &x.Z61b.Z61c.Z61e.A
		}
		l[6] = &x.Z61b.Z61c.Ab
		l[7] = &x.Z61b.Z61c.A
		l[8] = &x.Z61b.Ab
		_ = x
		return l
	},
		[]bool{true, false}, [][]int{{}, {}},
		[]zm{{"a<", 0, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"Ab", 1, true, false, nil, -1, []int{}}, {"ab", 2, false, false, nil, -1, []int{}}}, -1, []int{}}, {"Ab", 3, false, false, nil, -1, []int{}}, {"A", 7, false, true, nil, -1, []int{}}, {"B", 8, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z62a{}
		if !null(0) {
			x.z62b.Z62c.Z62d = &Z62d{}
		}
		if !null(1) {
			x.z62b.z62f = &z62f{}
		}
		if !null(2) {
			x.z62h = &z62h{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z62a)
		l := make([]*int, 10)
		l[0] = &x.C
		l[1] = &x.z62b.D
		l[2] = &x.z62b.Ab
		l[3] = &x.z62b.Z62c.A
		l[4] = &x.z62b.Z62c.Ab
		l[5] = (*int)(&x.z62b.Z62c.Z62e.ZN62)
		if x.z62b.z62f != nil {
			l[6] = &x.z62b.z62f.C
		}
		if x.z62b.z62f != nil {
			l[7] = &x.z62b.z62f.B
		}
		if x.z62b.z62f != nil {
			l[8] = &x.z62b.z62f.Z62g.D
		}
		l[9] = (*int)(&x.ZN62)
		_ = x
		return l
	},
		[]bool{true, false, false}, [][]int{{}, {}, {}},
		[]zm{{"c", 0, true, true, nil, -1, []int{}}, {"a", 1, false, false, nil, -1, []int{}}, {"Ab", 2, true, false, nil, -1, []int{}}, {"b", 3, false, false, nil, -1, []int{}}, {"é", 6, false, false, nil, -1, []int{1}}, {"D", 8, false, false, nil, -1, []int{1}}, {"ZN62", 9, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z64a{}
		if !null(0) {
			x.Z64g = &Z64g{}
		}
		if !null(1) {
			x.Z64b.Z64c = &Z64c{}
		}
		if x.Z64b.Z64c != nil && !null(2) {
			x.Z64b.Z64c.Z64d = &Z64d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z64a)
		l := make([]*int, 12)
		l[0] = &x.C
		l[1] = &x.Ab
		if x.Z64g != nil {
			l[2] = &x.Z64g.D
		}
		if x.Z64g != nil {
			l[3] = &x.Z64g.Ab
		}
		if x.Z64g != nil {
			l[4] = &x.Z64g.C
		}
		l[5] = (*int)(&x.Z64b.Z64f.ZN64)
		if x.Z64b.Z64c != nil && x.Z64b.Z64c.Z64d != nil {
			l[6] = &x.Z64b.Z64c.Z64d.B
		}
		if x.Z64b.Z64c != nil && x.Z64b.Z64c.Z64d != nil {
			l[7] = &x.Z64b.Z64c.Z64d.a
		}
		if x.Z64b.Z64c != nil {
			l[8] = &x.Z64b.Z64c.z64e.C
		}
		if x.Z64b.Z64c != nil {
			l[9] = &x.Z64b.Z64c.z64e.Ab
		}
		if x.Z64b.Z64c != nil {
			l[10] = &x.Z64b.Z64c.z64e.a
		}
		l[11] = &x.Z64b.D
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {}, {1}},
		[]zm{{"a<", 0, false, false, nil, -1, []int{}}, {"c", 1, false, false, nil, -1, []int{}}, {"D", 2, false, false, nil, -1, []int{0}}, {"C", 4, false, false, nil, -1, []int{0}}, {"a", -1, false, false, []zm{{"c", -1, false, false, []zm{{"ZN64", 5, false, false, nil, -1, []int{}}}, -1, []int{}}, {"a<", 6, false, false, nil, -1, []int{1, 2}}, {"C", 8, false, false, nil, -1, []int{1}}, {"-", 9, true, false, nil, -1, []int{1}}, {"D", 11, false, false, nil, -1, []int{}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z65a{}
		if !null(0) {
			x.Z65f.Z65h = &Z65h{}
		}
		if !null(1) {
			x.z65b.Z65e.z65d = &z65d{}
		}
		if !null(2) {
			x.z65b.Z65c = &Z65c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z65a)
		l := make([]*int, 12)
		if x.Z65f.Z65h != nil {
			l[0] = &x.Z65f.Z65h.B
		}
		if x.Z65f.Z65h != nil {
			l[1] = (*int)(&x.Z65f.Z65h.ZN65)
		}
		if x.Z65f.Z65h != nil {
			l[2] = &x.Z65f.Z65h.D
		}
		l[3] = &x.Z65f.D
		l[4] = &x.Z65f.Z65g.B
		l[5] = &x.z65b.Ab
		if x.z65b.Z65e.z65d != nil {
			l[6] = (*int)(&x.z65b.Z65e.z65d.ZN65)
		}
		l[7] = &x.z65b.Z65e.a
		if x.z65b.Z65c != nil {
			l[8] = (*int)(&x.z65b.Z65c.ZN65)
		}
		if x.z65b.Z65c != nil {
			l[9] = (*int)(&x.z65b.Z65c.z65d.ZN65)
		}
		l[10] = &x.z65b.A
		l[11] = &x.C
		_ = x
		return l
	},
		[]bool{true, false, true}, [][]int{{}, {}, {}},
		[]zm{{"b", 3, false, true, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"B", 4, true, false, nil, -1, []int{}}}, -1, []int{}}, {"Ab", 5, false, true, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"ZN65", 6, false, false, nil, -1, []int{1}}}, -1, []int{}}, {"B", 10, false, false, nil, -1, []int{}}, {"é", 11, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z66a{}
		if !null(0) {
			x.z66b = &z66b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z66a)
		l := make([]*int, 4)
		if x.z66b != nil {
			l[0] = &x.z66b.Ab
		}
		if x.z66b != nil {
			l[1] = &x.z66b.B
		}
		l[2] = &x.D
		l[3] = &x.A
		_ = x
		return l
	},
		[]bool{false}, [][]int{{}},
		[]zm{{"Ab", 0, false, false, nil, -1, []int{0}}, {"B", 1, true, false, nil, -1, []int{0}}, {"D", 2, false, false, nil, -1, []int{}}, {"c", 3, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z68a{}
		if !null(0) {
			x.z68b = &z68b{}
		}
		if x.z68b != nil && !null(1) {
			x.z68b.Z68c = &Z68c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z68a)
		l := make([]*int, 4)
		l[0] = &x.C
		if x.z68b != nil && x.z68b.Z68c != nil {
			l[1] = &x.z68b.Z68c.B
		}
		if x.z68b != nil && x.z68b.Z68c != nil {
			l[2] = &x.z68b.Z68c.Ab
		}
		l[3] = &x.D
		_ = x
		return l
	},
		[]bool{false, true}, [][]int{{}, {0}},
		[]zm{{"b", 2, false, false, nil, -1, []int{0, 1}}}},
	{func(null func(int) bool) interface{} {
		x := &Z69a{}
		if !null(0) {
			x.Z69c.z69h = &z69h{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z69a)
		l := make([]*int, 15)
		l[0] = &x.z69b.C
		l[1] = &x.z69b.A
		l[2] = (*int)(&x.Z69c.zn69)
		l[3] = &x.Z69c.B
		if x.Z69c.z69h != nil {
			l[4] = &x.Z69c.z69h.a
		}
		l[5] = &x.Z69c.A
		l[6] = &x.Z69c.Z69d.z69e.D
		l[7] = (*int)(&x.Z69c.Z69d.z69e.zn69)
		l[8] = &x.Z69c.Z69d.z69e.a
		l[9] = &x.Z69c.Z69d.C
		l[10] = &x.Z69c.Z69d.B
		l[11] = &x.Z69c.Z69d.Z69g.A
		l[12] = &x.Z69c.Z69d.Z69g.B
		l[13] = &x.Z69c.C
		l[14] = &x.Ab
		_ = x
		return l
	},
		[]bool{false}, [][]int{{}},
		[]zm{{"c", 1, true, true, nil, -1, []int{}}, {"A", 5, false, false, nil, -1, []int{}}, {"B", 10, false, false, nil, -1, []int{}}, {"C", 13, false, false, nil, -1, []int{}}, {"Ab", 14, true, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z70a{}
		if !null(0) {
			x.Z70b.z70c = &z70c{}
		}
		if !null(1) {
			x.Z70b.z70f = &z70f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z70a)
		l := make([]*int, 9)
		l[0] = &x.C
		l[1] = &x.A
		l[2] = &x.B
		if x.Z70b.z70c != nil {
			l[3] = &x.Z70b.z70c.D
		}
		if x.Z70b.z70c != nil {
			l[4] = &x.Z70b.z70c.Z70e.Ab
		}
		if x.Z70b.z70c != nil {
			l[5] = &x.Z70b.z70c.z70d.A
		}
		if x.Z70b.z70c != nil {
			l[6] = &x.Z70b.z70c.A
		}
		l[7] = &x.Z70b.D
		if x.Z70b.z70f != nil {
			l[8] = &x.Z70b.z70f.a
		}
		_ = x
		return l
	},
		[]bool{false, false}, [][]int{{}, {}},
		[]zm{{"A", 0, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"D", 3, false, false, nil, -1, []int{0}}, {"A", 5, false, false, nil, -1, []int{0}}, {"a<", 7, false, false, nil, -1, []int{}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z71a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z71a)
		l := make([]*int, 7)
		l[0] = &x.Ab
		l[1] = &x.z71b.a
		l[2] = &x.z71b.z71c.A
		l[3] = &x.z71b.z71c.D
		l[4] = &x.z71b.z71c.Z71d.a
		l[5] = &x.z71b.z71c.Z71d.A
		l[6] = &x.z71b.z71c.Z71d.C
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[]zm{{"Ab", 0, true, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"A", 2, false, false, nil, -1, []int{}}, {"D", 3, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"A", 5, false, true, nil, -1, []int{}}, {"b", 6, false, false, nil, -1, []int{}}}, -1, []int{}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z72a{}
		if !null(0) {
			x.Z72d = &Z72d{}
		}
		if !null(1) {
			x.z72b = &z72b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z72a)
		l := make([]*int, 13)
		if x.Z72d != nil {
			l[0] = &x.Z72d.A
		}
		if x.Z72d != nil {
			l[1] = &x.Z72d.Ab
		}
		if x.Z72d != nil {
			l[2] = (*int)(&x.Z72d.zn72)
		}
		l[3] = &x.Ab
		l[4] = &x.C
		if x.z72b != nil {
			l[5] = &x.z72b.Z72c.Ab
		}
		if x.z72b != nil {
			l[6] = &x.z72b.Z72c.C
		}
		if x.z72b != nil {
			l[7] = &x.z72b.Z72c.Z72d.A
		}
		if x.z72b != nil {
			l[8] = &x.z72b.Z72c.Z72d.Ab
		}
		if x.z72b != nil {
			l[9] = (*int)(&x.z72b.Z72c.Z72d.zn72)
		}
		if x.z72b != nil {
			l[10] = &x.z72b.D
		}
		if x.z72b != nil {
			l[11] = &x.z72b.A
		}
		if x.z72b != nil {
			l[12] = &x.z72b.B
		}
		_ = x
		return l
	},
		[]bool{true, false}, [][]int{{}, {}},
		[]zm{{"Ab", 1, true, false, nil, -1, []int{0}}, {"A", 3, false, false, nil, -1, []int{}}, {"ab", 4, false, false, nil, -1, []int{}}, {"C", 6, false, false, nil, -1, []int{1}}, {"a", 10, true, false, nil, -1, []int{1}}, {"-", 11, false, false, nil, -1, []int{1}}}},
	{func(null func(int) bool) interface{} {
		x := &Z73a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z73a)
		l := make([]*int, 7)
		l[0] = &x.B
		l[1] = &x.Z73b.Z73c.Ab
		l[2] = &x.Z73b.Z73c.a
		l[3] = (*int)(&x.Z73b.Z73c.ZN73)
		l[4] = &x.Z73b.Z73c.Z73d.D
		l[5] = &x.Z73b.Z73c.Z73d.C
		l[6] = &x.Z73b.B
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[]zm{{"B", 0, false, true, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"Ab", 1, false, false, nil, -1, []int{}}, {"ZN73", 3, false, false, nil, -1, []int{}}, {"a", 4, false, false, nil, -1, []int{}}, {"C", 5, true, false, nil, -1, []int{}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z74a{}
		if !null(0) {
			x.z74d = &z74d{}
		}
		if !null(1) {
			x.z74b.Z74c = &Z74c{}
		}
		if !null(2) {
			x.z74b.Z74e = &Z74e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z74a)
		l := make([]*int, 11)
		l[0] = &x.Ab
		l[1] = &x.A
		l[2] = &x.Z74c.B
		l[3] = &x.Z74c.D
		l[4] = &x.Z74c.Ab
		if x.z74b.Z74c != nil {
			l[5] = &x.z74b.Z74c.B
		}
		if x.z74b.Z74c != nil {
			l[6] = &x.z74b.Z74c.D
		}
		if x.z74b.Z74c != nil {
			l[7] = &x.z74b.Z74c.Ab
		}
		l[8] = &x.z74b.D
		if x.z74b.Z74e != nil {
			l[9] = &x.z74b.Z74e.Ab
		}
		if x.z74b.Z74e != nil {
			l[10] = &x.z74b.Z74e.A
		}
		_ = x
		return l
	},
		[]bool{false, true, true}, [][]int{{}, {}, {}},
		[]zm{{"-", 0, false, true, nil, -1, []int{}}, {"é", 1, false, false, nil, -1, []int{}}, {"B", 2, false, false, nil, -1, []int{}}, {"b", 3, false, true, nil, -1, []int{}}, {"Ab", 4, true, false, nil, -1, []int{}}, {"c", -1, true, false, []zm{{"B", 5, false, false, nil, -1, []int{}}, {"b", 6, false, true, nil, -1, []int{}}, {"Ab", 7, true, false, nil, -1, []int{}}}, 1, []int{}}, {"D", 8, false, false, nil, -1, []int{}}, {"ab", 9, false, false, nil, -1, []int{2}}}},
	{func(null func(int) bool) interface{} {
		x := &Z75a{}
		if !null(0) {
			x.Z75b = &Z75b{}
		}
		if x.Z75b != nil && !null(1) {
			x.Z75b.z75c = &z75c{}
		}
		if x.Z75b != nil && !null(2) {
			x.Z75b.Z75e.Z75f = &Z75f{}
		}
		if x.Z75b != nil && !null(3) {
			x.Z75b.Z75e.Z75d = &Z75d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z75a)
		l := make([]*int, 9)
		l[0] = &x.Ab
		if x.Z75b != nil {
			l[1] = &x.Z75b.C
		}
		if x.Z75b != nil && x.Z75b.z75c != nil {
			l[2] = (*int)(&x.Z75b.z75c.Z75d.zn75)
		}
		if x.Z75b != nil {
			l[3] = &x.Z75b.Ab
		}
		if x.Z75b != nil && x.Z75b.Z75e.Z75f != nil {
			l[4] = &x.Z75b.Z75e.Z75f.B
		}
		if x.Z75b != nil && x.Z75b.Z75e.Z75d != nil {
			l[5] = (*int)(&x.Z75b.Z75e.Z75d.zn75)
		}
		if x.Z75b != nil {
			l[6] = &x.Z75b.Z75e.Ab
		}
		if x.Z75b != nil {
			l[7] = &x.Z75b.Z75e.A
		}
		if x.Z75b != nil {
			l[8] = &x.Z75b.Z75e.D
		}
		_ = x
		return l
	},
		[]bool{true, false, true, true}, [][]int{{}, {0}, {0}, {0}},
		[]zm{{"B", 0, false, false, nil, -1, []int{}}, {"C", 1, false, false, nil, -1, []int{0}}, {"-", 3, false, false, nil, -1, []int{0}}, {"b", 4, false, false, nil, -1, []int{0, 2}}, {"a", 6, true, false, nil, -1, []int{0}}, {"é", 8, false, false, nil, -1, []int{0}}}},
	{func(null func(int) bool) interface{} {
		x := &Z78a{}
		if !null(0) {
			x.Z78b.Z78c = &Z78c{}
		}
		if x.Z78b.Z78c != nil && !null(1) {
			x.Z78b.Z78c.Z78d = &Z78d{}
		}
		if !null(2) {
			x.Z78e.Z78f = &Z78f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z78a)
		l := make([]*int, 11)
		l[0] = &x.Z78b.B
		l[1] = &x.Z78b.A
		if x.Z78b.Z78c != nil && x.Z78b.Z78c.Z78d != nil {
			l[2] = &x.Z78b.Z78c.Z78d.Ab
		}
		if x.Z78b.Z78c != nil && x.Z78b.Z78c.Z78d != nil {
			l[3] = &x.Z78b.Z78c.Z78d.B
		}
		if x.Z78b.Z78c != nil {
			l[4] = &x.Z78b.Z78c.C
		}
		if x.Z78b.Z78c != nil {
			l[5] = (*int)(&x.Z78b.Z78c.ZN78)
		}
		l[6] = &x.Z78e.D
		l[7] = &x.Z78e.Z78g.a
		l[8] = &x.Ab
		l[9] = &x.C
		l[10] = &x.B
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {0}, {}},
		[]zm{{"é", 2, false, false, nil, -1, []int{0, 1}}, {"A", 3, false, false, nil, -1, []int{0, 1}}, {"D", 6, false, false, nil, -1, []int{}}, {"c", 8, true, true, nil, -1, []int{}}, {"a", 9, true, false, nil, -1, []int{}}, {"B", 10, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z79a{}
		if !null(0) {
			x.Z79b = &Z79b{}
		}
		if x.Z79b != nil && !null(1) {
			x.Z79b.Z79e.Z79f = &Z79f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z79a)
		l := make([]*int, 12)
		l[0] = &x.C
		l[1] = &x.z79h.A
		l[2] = &x.z79h.B
		if x.Z79b != nil {
			l[3] = &x.Z79b.Z79c.B
		}
		if x.Z79b != nil {
			l[4] = &x.Z79b.Ab
		}
		if x.Z79b != nil {
			l[5] = &x.Z79b.z79d.Ab
		}
		if x.Z79b != nil && x.Z79b.Z79e.Z79f != nil {
			l[6] = &x.Z79b.Z79e.Z79f.D
		}
		if x.Z79b != nil && x.Z79b.Z79e.Z79f != nil {
			l[7] = &x.Z79b.Z79e.Z79f.a
		}
		if x.Z79b != nil && x.Z79b.Z79e.Z79f != nil {
			l[8] = &x.Z79b.Z79e.Z79f.B
		}
		if x.Z79b != nil {
			l[9] = &x.Z79b.Z79e.Ab
		}
		if x.Z79b != nil {
			l[10] = &x.Z79b.Z79e.z79g.a
		}
		l[11] = &x.Ab
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {0}},
		[]zm{{"C", 0, false, false, nil, -1, []int{}}, {"a<", 1, false, false, nil, -1, []int{}}, {"B", 2, true, false, nil, -1, []int{}}, {"é", 5, false, false, nil, -1, []int{0}}, {"c", -1, false, false, []zm{{"b", 6, false, true, nil, -1, []int{1}}, {"A", 8, false, false, nil, -1, []int{1}}, {"Ab", 9, false, false, nil, -1, []int{}}}, -1, []int{0}}, {"Ab", 11, true, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z83a{}
		if !null(0) {
			x.z83b.Z83c = &Z83c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z83a)
		l := make([]*int, 4)
		l[0] = &x.B
		if x.z83b.Z83c != nil {
			l[1] = &x.z83b.Z83c.A
		}
		l[2] = &x.A
		l[3] = &x.C
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"A", 0, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"B", 1, false, false, nil, -1, []int{0}}}, -1, []int{}}, {"a<", 2, false, false, nil, -1, []int{}}, {"C", 3, true, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z84a{}
		if !null(0) {
			x.Z84b.Z84c = &Z84c{}
		}
		if x.Z84b.Z84c != nil && !null(1) {
			x.Z84b.Z84c.Z84d = &Z84d{}
		}
		if !null(2) {
			x.Z84b.Z84d = &Z84d{}
		}
		if !null(3) {
			x.Z84c.Z84d = &Z84d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z84a)
		l := make([]*int, 13)
		if x.Z84b.Z84c != nil {
			l[0] = &x.Z84b.Z84c.C
		}
		if x.Z84b.Z84c != nil && x.Z84b.Z84c.Z84d != nil {
			l[1] = &x.Z84b.Z84c.Z84d.Ab
		}
		if x.Z84b.Z84c != nil && x.Z84b.Z84c.Z84d != nil {
			l[2] = &x.Z84b.Z84c.Z84d.B
		}
		if x.Z84b.Z84c != nil && x.Z84b.Z84c.Z84d != nil {
			l[3] = &x.Z84b.Z84c.Z84d.a
		}
		if x.Z84b.Z84d != nil {
			l[4] = &x.Z84b.Z84d.Ab
		}
		if x.Z84b.Z84d != nil {
			l[5] = &x.Z84b.Z84d.B
		}
		if x.Z84b.Z84d != nil {
			l[6] = &x.Z84b.Z84d.a
		}
		l[7] = &x.Z84b.Ab
		l[8] = &x.Ab
		l[9] = &x.Z84c.C
		if x.Z84c.Z84d != nil {
			l[10] = &x.Z84c.Z84d.Ab
		}
		if x.Z84c.Z84d != nil {
			l[11] = &x.Z84c.Z84d.B
		}
		if x.Z84c.Z84d != nil {
			l[12] = &x.Z84c.Z84d.a
		}
		_ = x
		return l
	},
		[]bool{true, true, true, true}, [][]int{{}, {0}, {}, {}},
		[]zm{{"a", 0, false, false, nil, -1, []int{0}}, {"é", 8, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"a", 9, false, false, nil, -1, []int{}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z85a{}
		if !null(0) {
			x.z85b = &z85b{}
		}
		if x.z85b != nil && !null(1) {
			x.z85b.Z85c = &Z85c{}
		}
		if !null(2) {
			x.z85e.Z85h = &Z85h{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z85a)
		l := make([]*int, 11)
		l[0] = &x.A
		l[1] = &x.D
		if x.z85b != nil {
			l[2] = (*int)(&x.z85b.zn85)
		}
		if x.z85b != nil {
			l[3] = &x.z85b.z85d.A
		}
		l[4] = &x.z85e.Ab
		l[5] = &x.z85e.a
		l[6] = (*int)(&x.z85e.ZN85)
		l[7] = &x.z85e.C
		l[8] = &x.z85e.Z85f.C
		l[9] = &x.z85e.Z85f.a
		if x.z85e.Z85h != nil {
			l[10] = &x.z85e.Z85h.A
		}
		_ = x
		return l
	},
		[]bool{false, true, true}, [][]int{{}, {0}, {}},
		[]zm{{"A", 0, false, false, nil, -1, []int{}}, {"c", 1, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{}, 1, []int{0}}, {"b", 6, true, false, nil, -1, []int{}}, {"B", 7, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z86a{}
		if !null(0) {
			x.Z86b = &Z86b{}
		}
		if x.Z86b != nil && !null(1) {
			x.Z86b.Z86c = &Z86c{}
		}
		if x.Z86b != nil && x.Z86b.Z86c != nil && !null(2) {
			x.Z86b.Z86c.Z86d = &Z86d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z86a)
		l := make([]*int, 9)
		l[0] = &x.A
		if x.Z86b != nil {
			l[1] = (*int)(&x.Z86b.ZN86)
		}
		if x.Z86b != nil && x.Z86b.Z86c != nil {
			l[2] = &x.Z86b.Z86c.B
		}
		if x.Z86b != nil && x.Z86b.Z86c != nil && x.Z86b.Z86c.Z86d != nil {
			l[3] = (*int)(&x.Z86b.Z86c.Z86d.ZN86)
		}
		if x.Z86b != nil && x.Z86b.Z86c != nil && x.Z86b.Z86c.Z86d != nil {
			l[4] = &x.Z86b.Z86c.Z86d.B
		}
		if x.Z86b != nil && x.Z86b.Z86c != nil {
			l[5] = (*int)(&x.Z86b.Z86c.ZN86)
		}
		if x.Z86b != nil && x.Z86b.Z86c != nil {
			l[6] = &x.Z86b.Z86c.C
		}
		if x.Z86b != nil {
			l[7] = &x.Z86b.C
		}
		l[8] = &x.Ab
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {0}, {0, 1}},
		[]zm{{"B", 0, false, false, nil, -1, []int{}}, {"a", 2, true, false, nil, -1, []int{0, 1}}, {"a<", 4, false, false, nil, -1, []int{0, 1, 2}}, {"ZN86", 5, false, false, nil, -1, []int{0, 1}}, {"ab", 6, false, false, nil, -1, []int{0, 1}}, {"A", 7, false, false, nil, -1, []int{0}}, {"b", 8, false, true, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z88a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z88a)
		l := make([]*int, 6)
		l[0] = &x.A
		l[1] = &x.Z88b.C
		l[2] = &x.Z88b.z88c.B
		l[3] = &x.Z88b.z88c.Z88d.a
		l[4] = &x.Z88b.z88c.C
		l[5] = &x.B
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[]zm{{"é", 0, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"B", 1, false, false, nil, -1, []int{}}, {"-", 2, true, false, nil, -1, []int{}}, {"C", 4, false, false, nil, -1, []int{}}}, -1, []int{}}, {"B", 5, false, true, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z89a{}
		if !null(0) {
			x.z89b.z89f = &z89f{}
		}
		if x.z89b.z89f != nil && !null(1) {
			x.z89b.z89f.z89h = &z89h{}
		}
		if x.z89b.z89f != nil && !null(2) {
			x.z89b.z89f.z89g = &z89g{}
		}
		if !null(3) {
			x.z89b.z89c = &z89c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z89a)
		l := make([]*int, 11)
		l[0] = &x.D
		if x.z89b.z89f != nil {
			l[1] = &x.z89b.z89f.D
		}
		if x.z89b.z89f != nil && x.z89b.z89f.z89h != nil {
			l[2] = &x.z89b.z89f.z89h.A
		}
		if x.z89b.z89f != nil && x.z89b.z89f.z89h != nil {
			l[3] = &x.z89b.z89f.z89h.D
		}
		if x.z89b.z89f != nil && x.z89b.z89f.z89g != nil {
			l[4] = &x.z89b.z89f.z89g.a
		}
		if x.z89b.z89f != nil {
			l[5] = &x.z89b.z89f.C
		}
		if x.z89b.z89c != nil {
			l[6] = &x.z89b.z89c.C
		}
		if x.z89b.z89c != nil {
			l[7] = &x.z89b.z89c.Z89e.C
		}
		if x.z89b.z89c != nil {
			l[8] = &x.z89b.z89c.Z89e.A
		}
		if x.z89b.z89c != nil {
			l[9] = &x.z89b.z89c.a
		}
		if x.z89b.z89c != nil {
			l[10] = &x.z89b.z89c.D
		}
		_ = x
		return l
	},
		[]bool{false, false, false, false}, [][]int{{}, {0}, {0}, {}},
		[]zm{{"c", 0, false, false, nil, -1, []int{}}, {"D", 1, true, false, nil, -1, []int{0}}, {"a", 3, true, false, nil, -1, []int{0, 1}}, {"-", 10, false, true, nil, -1, []int{3}}}},
	{func(null func(int) bool) interface{} {
		x := &Z90a{}
		if !null(0) {
			x.Z90b.z90c.Z90d = &Z90d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z90a)
		l := make([]*int, 8)
		l[0] = &x.a
		l[1] = &x.C
		l[2] = (*int)(&x.Z90b.z90c.ZN90)
		l[3] = &x.Z90b.z90c.Ab
		if x.Z90b.z90c.Z90d != nil {
			l[4] = &x.Z90b.z90c.Z90d.C
		}
		if x.Z90b.z90c.Z90d != nil {
			l[5] = &x.Z90b.z90c.Z90d.D
		}
		l[6] = &x.Z90b.z90c.C
		l[7] = &x.Z90b.Ab
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"A", 1, false, false, nil, -1, []int{}}, {"b", 2, true, false, nil, -1, []int{}}, {"Ab", 3, false, false, nil, -1, []int{}}, {"c", 5, true, true, nil, -1, []int{0}}, {"C", 6, false, false, nil, -1, []int{}}, {"a", 7, true, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z91a{}
		if !null(0) {
			x.Z91b = &Z91b{}
		}
		if x.Z91b != nil && !null(1) {
			x.Z91b.Z91e = &Z91e{}
		}
		if x.Z91b != nil && x.Z91b.Z91e != nil && !null(2) {
			x.Z91b.Z91e.z91g = &z91g{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z91a)
		l := make([]*int, 11)
		if x.Z91b != nil {
			l[0] = &x.Z91b.B
		}
		if x.Z91b != nil {
			l[1] = &x.Z91b.Z91c.A
		}
		if x.Z91b != nil {
			l[2] = &x.Z91b.Z91c.B
		}
		if x.Z91b != nil {
			l[3] = &x.Z91b.Z91c.D
		}
		if x.Z91b != nil {
			l[4] = &x.Z91b.Ab
		}
		if x.Z91b != nil && x.Z91b.Z91e != nil {
			l[5] = &x.Z91b.Z91e.D
		}
		if x.Z91b != nil && x.Z91b.Z91e != nil {
			l[6] = &x.Z91b.Z91e.z91f.Ab
		}
		if x.Z91b != nil && x.Z91b.Z91e != nil && x.Z91b.Z91e.z91g != nil {
			l[7] = &x.Z91b.Z91e.z91g.D
		}
		if x.Z91b != nil && x.Z91b.Z91e != nil && x.Z91b.Z91e.z91g != nil {
			l[8] = &x.Z91b.Z91e.z91g.A
		}
		l[9] = &x.A
		l[10] = &x.Ab
		_ = x
		return l
	},
		[]bool{true, true, false}, [][]int{{}, {0}, {0, 1}},
		[]zm{{"c", 2, true, true, nil, -1, []int{0}}, {"Ab", 4, true, false, nil, -1, []int{0}}, {"B", 5, false, false, nil, -1, []int{0, 1}}, {"a<", 6, false, false, nil, -1, []int{0, 1}}, {"D", 7, false, true, nil, -1, []int{0, 1, 2}}, {"A", 9, false, false, nil, -1, []int{}}, {"-", 10, true, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z92a{}
		if !null(0) {
			x.Z92g = &Z92g{}
		}
		if !null(1) {
			x.Z92b.Z92c = &Z92c{}
		}
		if !null(2) {
			x.Z92b.Z92e = &Z92e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z92a)
		l := make([]*int, 13)
		l[0] = &x.A
		l[1] = &x.D
		if x.Z92g != nil {
			l[2] = &x.Z92g.D
		}
		if x.Z92g != nil {
			l[3] = &x.Z92g.A
		}
		l[4] = &x.Z92b.A
		if x.Z92b.Z92c != nil {
			l[5] = &x.Z92b.Z92c.Z92e.Ab
		}
		if x.Z92b.Z92c != nil {
			l[6] = &x.Z92b.Z92c.Z92e.A
		}
		if x.Z92b.Z92c != nil {
			l[7] = &x.Z92b.Z92c.Z92f.B
		}
		if x.Z92b.Z92c != nil {
			l[8] = &x.Z92b.Z92c.Ab
		}
		l[9] = &x.Z92b.B
		if x.Z92b.Z92e != nil {
			l[10] = &x.Z92b.Z92e.Ab
		}
		if x.Z92b.Z92e != nil {
			l[11] = &x.Z92b.Z92e.A
		}
		l[12] = &x.a
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {}, {}},
		[]zm{{"A", 0, false, false, nil, -1, []int{}}, {"D", 1, false, false, nil, -1, []int{}}, {"a<", 2, false, false, nil, -1, []int{0}}, {"a", -1, false, false, []zm{{"B", 5, false, false, nil, -1, []int{}}, {"b", 6, false, false, nil, -1, []int{}}, {"-", 7, false, true, nil, -1, []int{}}, {"Ab", 8, false, false, nil, -1, []int{}}}, 1, []int{}}, {"B", 9, false, false, nil, -1, []int{}}, {"b", 11, false, false, nil, -1, []int{2}}}},
	{func(null func(int) bool) interface{} {
		x := &Z94a{}
		if !null(0) {
			x.Z94b.Z94c.Z94d = &Z94d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z94a)
		l := make([]*int, 12)
		l[0] = &x.a
		l[1] = &x.z94h.C
		l[2] = &x.z94h.Ab
		l[3] = &x.Z94b.Z94g.B
		l[4] = &x.Z94b.Z94g.D
		l[5] = &x.Z94b.Z94c.z94f.Ab
		l[6] = &x.Z94b.Z94c.C
		l[7] = &x.Z94b.Z94c.A
		l[8] = &x.Z94b.B
		l[9] = &x.Z94b.D
		l[10] = &x.A
		l[11] = &x.C
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"A", 10, false, false, nil, -1, []int{}}, {"C", 11, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z95a{}
		if !null(0) {
			x.z95c = &z95c{}
		}
		if !null(1) {
			x.z95b = &z95b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z95a)
		l := make([]*int, 5)
		if x.z95c != nil {
			l[0] = &x.z95c.C
		}
		if x.z95c != nil {
			l[1] = &x.z95c.a
		}
		l[2] = &x.B
		if x.z95b != nil {
			l[3] = &x.z95b.B
		}
		l[4] = (*int)(&x.ZN95)
		_ = x
		return l
	},
		[]bool{false, false}, [][]int{{}, {}},
		[]zm{{"C", 0, false, false, nil, -1, []int{0}}, {"B", 2, false, false, nil, -1, []int{}}, {"a", 4, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z96a{}
		if !null(0) {
			x.Z96b = &Z96b{}
		}
		if x.Z96b != nil && !null(1) {
			x.Z96b.Z96c = &Z96c{}
		}
		if x.Z96b != nil && x.Z96b.Z96c != nil && !null(2) {
			x.Z96b.Z96c.Z96d = &Z96d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z96a)
		l := make([]*int, 7)
		if x.Z96b != nil && x.Z96b.Z96c != nil {
			l[0] = &x.Z96b.Z96c.D
		}
		if x.Z96b != nil && x.Z96b.Z96c != nil {
			l[1] = &x.Z96b.Z96c.Ab
		}
		if x.Z96b != nil && x.Z96b.Z96c != nil && x.Z96b.Z96c.Z96d != nil {
			l[2] = &x.Z96b.Z96c.Z96d.Ab
		}
		if x.Z96b != nil && x.Z96b.Z96c != nil && x.Z96b.Z96c.Z96d != nil {
			l[3] = &x.Z96b.Z96c.Z96d.B
		}
		if x.Z96b != nil && x.Z96b.Z96c != nil && x.Z96b.Z96c.Z96d != nil {
			l[4] = &x.Z96b.Z96c.Z96d.a
		}
		if x.Z96b != nil {
			l[5] = &x.Z96b.Ab
		}
		l[6] = &x.B
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {0}, {0, 1}},
		[]zm{{"a", 0, false, false, nil, -1, []int{0, 1}}, {"Ab", 1, false, false, nil, -1, []int{0, 1}}, {"c", 2, true, true, nil, -1, []int{0, 1, 2}}, {"B", 5, false, false, nil, -1, []int{0}}, {"b", 6, false, true, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z97a{}
		if !null(0) {
			x.Z97b.z97c.z97e = &z97e{}
		}
		if !null(1) {
			x.Z97b.z97c.Z97d = &Z97d{}
		}
		if !null(2) {
			x.Z97d = &Z97d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z97a)
		l := make([]*int, 11)
		l[0] = (*int)(&x.zn97)
		l[1] = (*int)(&x.Z97b.z97c.zn97)
		if x.Z97b.z97c.z97e != nil {
			l[2] = &x.Z97b.z97c.z97e.B
		}
		if x.Z97b.z97c.z97e != nil {
			l[3] = &x.Z97b.z97c.z97e.a
		}
		l[4] = &x.Z97b.z97c.A
		l[5] = &x.Z97b.z97c.B
		l[6] = &x.Z97b.B
		l[7] = &x.Z97b.Ab
		l[8] = (*int)(&x.Z97b.ZN97)
		l[9] = &x.a
		l[10] = &x.B
		_ = x
		return l
	},
		[]bool{false, true, true}, [][]int{{}, {}, {}},
		[]zm{{"b", 4, false, true, nil, -1, []int{}}, {"B", 6, false, true, nil, -1, []int{}}, {"-", 7, true, false, nil, -1, []int{}}, {"a", 8, false, false, nil, -1, []int{}}, {"é", 10, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z99a{}
		if !null(0) {
			x.Z99b = &Z99b{}
		}
		if x.Z99b != nil && !null(1) {
			x.Z99b.Z99e = &Z99e{}
		}
		if x.Z99b != nil && !null(2) {
			x.Z99b.z99c = &z99c{}
		}
		if x.Z99b != nil && x.Z99b.z99c != nil && !null(3) {
			x.Z99b.z99c.Z99d = &Z99d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z99a)
		l := make([]*int, 8)
		l[0] = &x.Ab
		if x.Z99b != nil && x.Z99b.Z99e != nil {
			l[1] = &x.Z99b.Z99e.Z99f.C
		}
		if x.Z99b != nil && x.Z99b.Z99e != nil {
			l[2] = &x.Z99b.Z99e.Z99g.Ab
		}
		if x.Z99b != nil && x.Z99b.Z99e != nil {
			l[3] = (*int)(&x.Z99b.Z99e.Z99g.zn99)
		}
		if x.Z99b != nil && x.Z99b.Z99e != nil {
			l[4] = &x.Z99b.Z99e.B
		}
		if x.Z99b != nil && x.Z99b.z99c != nil {
			l[5] = &x.Z99b.z99c.B
		}
		if x.Z99b != nil && x.Z99b.z99c != nil {
			l[6] = &x.Z99b.z99c.C
		}
		if x.Z99b != nil && x.Z99b.z99c != nil && x.Z99b.z99c.Z99d != nil {
			l[7] = &x.Z99b.z99c.Z99d.B
		}
		_ = x
		return l
	},
		[]bool{true, true, false, true}, [][]int{{}, {0}, {0}, {0, 2}},
		[]zm{{"c", -1, true, false, []zm{{"a", -1, false, false, []zm{{"C", 1, true, false, nil, -1, []int{}}, {"B", 2, false, false, nil, -1, []int{}}, {"ab", 4, false, false, nil, -1, []int{}}}, 1, []int{}}, {"B", 5, true, false, nil, -1, []int{2}}, {"C", 6, false, false, nil, -1, []int{2}}}, 0, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z100a{}
		if !null(0) {
			x.Z100b.Z100c.Z100e = &Z100e{}
		}
		if !null(1) {
			x.Z100b.Z100c.Z100d = &Z100d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z100a)
		l := make([]*int, 7)
		l[0] = &x.A
		l[1] = &x.Z100b.A
		if x.Z100b.Z100c.Z100e != nil {
			l[2] = &x.Z100b.Z100c.Z100e.a
		}
		if x.Z100b.Z100c.Z100e != nil {
			l[3] = &x.Z100b.Z100c.Z100e.A
		}
		if x.Z100b.Z100c.Z100d != nil {
			l[4] = &x.Z100b.Z100c.Z100d.A
		}
		l[5] = &x.Z100b.C
		l[6] = &x.Z100b.D
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {}},
		[]zm{{"a", 0, false, false, nil, -1, []int{}}, {"B", 1, false, false, nil, -1, []int{}}, {"D", 6, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z101a{}
		if !null(0) {
			x.z101d.z101e.Z101f = &Z101f{}
		}
		if !null(1) {
			x.z101d.z101e.Z101g = &Z101g{}
		}
		if !null(2) {
			x.Z101b.Z101c = &Z101c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z101a)
		l := make([]*int, 15)
		l[0] = &x.D
		l[1] = &x.z101d.z101h.Ab
		l[2] = &x.z101d.z101h.A
		l[3] = &x.z101d.z101h.C
		l[4] = &x.z101d.C
		l[5] = &x.z101d.z101e.B
		if x.z101d.z101e.Z101f != nil {
			l[6] = &x.z101d.z101e.Z101f.B
		}
		if x.z101d.z101e.Z101g != nil {
			l[7] = &x.z101d.z101e.Z101g.C
		}
		if x.z101d.z101e.Z101g != nil {
			l[8] = &x.z101d.z101e.Z101g.a
		}
		if x.z101d.z101e.Z101g != nil {
			l[9] = &x.z101d.z101e.Z101g.Ab
		}
		if x.z101d.z101e.Z101g != nil {
			l[10] = &x.z101d.z101e.Z101g.D
		}
		l[11] = &x.z101d.z101e.D
		l[12] = &x.Z101b.B
		if x.Z101b.Z101c != nil {
			l[13] = &x.Z101b.Z101c.B
		}
		l[14] = &x.Z101b.D
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {}, {}},
		[]zm{{"c", -1, false, false, []zm{{"c", -1, false, false, []zm{{"ab", 1, false, false, nil, -1, []int{}}, {"a", 2, true, false, nil, -1, []int{}}, {"C", 3, false, false, nil, -1, []int{}}}, -1, []int{}}, {"ab", 4, false, false, nil, -1, []int{}}, {"é", 5, false, false, nil, -1, []int{}}, {"a", 6, true, false, nil, -1, []int{0}}, {"D", 11, true, false, nil, -1, []int{}}}, -1, []int{}}, {"B", 12, false, false, nil, -1, []int{}}, {"b", 13, false, false, nil, -1, []int{2}}}},
	{func(null func(int) bool) interface{} {
		x := &Z103a{}
		if !null(0) {
			x.Z103c = &Z103c{}
		}
		if !null(1) {
			x.Z103b = &Z103b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z103a)
		l := make([]*int, 5)
		if x.Z103c != nil {
			l[0] = &x.Z103c.a
		}
		if x.Z103c != nil {
			l[1] = (*int)(&x.Z103c.ZN103)
		}
		if x.Z103b != nil {
			l[2] = &x.Z103b.C
		}
		if x.Z103b != nil {
			l[3] = &x.Z103b.D
		}
		l[4] = &x.Ab
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {}},
		[]zm{{"ZN103", 1, false, false, nil, -1, []int{0}}, {"C", 2, true, false, nil, -1, []int{1}}, {"ab", 3, false, false, nil, -1, []int{1}}, {"a<", 4, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z104a{}
		if !null(0) {
			x.Z104c.z104e.Z104f = &Z104f{}
		}
		if !null(1) {
			x.Z104c.z104d = &z104d{}
		}
		if !null(2) {
			x.Z104b = &Z104b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z104a)
		l := make([]*int, 12)
		l[0] = &x.Z104c.C
		if x.Z104c.z104e.Z104f != nil {
			l[1] = &x.Z104c.z104e.Z104f.B
		}
		if x.Z104c.z104e.Z104f != nil {
			l[2] = &x.Z104c.z104e.Z104f.A
		}
		if x.Z104c.z104e.Z104f != nil {
			l[3] = &x.Z104c.z104e.Z104f.Ab
		}
		l[4] = &x.Z104c.z104e.A
		l[5] = &x.Z104c.z104e.a
		if x.Z104c.z104d != nil {
			l[6] = &x.Z104c.z104d.D
		}
		if x.Z104c.z104d != nil {
			l[7] = &x.Z104c.z104d.a
		}
		if x.Z104c.z104d != nil {
			l[8] = &x.Z104c.z104d.B
		}
		l[9] = &x.Z104c.A
		l[10] = &x.D
		l[11] = (*int)(&x.ZN104)
		_ = x
		return l
	},
		[]bool{true, false, true}, [][]int{{}, {}, {}},
		[]zm{{"C", 0, true, false, nil, -1, []int{}}, {"b", 4, false, true, nil, -1, []int{}}, {"c", 6, false, false, nil, -1, []int{1}}, {"B", 8, false, false, nil, -1, []int{1}}, {"A", 9, false, false, nil, -1, []int{}}, {"ZN104", 11, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z105a{}
		if !null(0) {
			x.Z105e = &Z105e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z105a)
		l := make([]*int, 8)
		l[0] = (*int)(&x.Z105b.z105c.Z105d.ZN105)
		l[1] = &x.Z105b.z105c.Z105d.B
		l[2] = &x.Z105b.z105c.C
		l[3] = &x.Z105b.z105c.a
		l[4] = &x.A
		if x.Z105e != nil {
			l[5] = &x.Z105e.A
		}
		l[6] = &x.Ab
		l[7] = &x.C
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"c", -1, false, false, []zm{{"b", 0, true, false, nil, -1, []int{}}, {"a<", 1, false, false, nil, -1, []int{}}, {"A", 2, false, false, nil, -1, []int{}}}, -1, []int{}}, {"a", -1, false, false, []zm{{"A", 5, false, false, nil, -1, []int{}}}, 0, []int{}}, {"b", 6, false, false, nil, -1, []int{}}, {"A", 7, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z106a{}
		if !null(0) {
			x.Z106b.Z106c = &Z106c{}
		}
		if x.Z106b.Z106c != nil && !null(1) {
			x.Z106b.Z106c.Z106d = &Z106d{}
		}
		if !null(2) {
			x.Z106e = &Z106e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z106a)
		l := make([]*int, 7)
		l[0] = &x.Z106b.B
		l[1] = &x.Z106b.C
		l[2] = &x.Z106b.a
		if x.Z106b.Z106c != nil && x.Z106b.Z106c.Z106d != nil {
			l[3] = &x.Z106b.Z106c.Z106d.A
		}
		if x.Z106b.Z106c != nil {
			l[4] = &x.Z106b.Z106c.C
		}
		if x.Z106b.Z106c != nil {
			l[5] = &x.Z106b.Z106c.Ab
		}
		l[6] = &x.Ab
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {0}, {}},
		[]zm{{"B", 3, false, false, nil, -1, []int{0, 1}}, {"a", -1, false, false, []zm{}, 2, []int{}}, {"Ab", 6, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z107a{}
		if !null(0) {
			x.Z107b = &Z107b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z107a)
		l := make([]*int, 7)
		l[0] = &x.Z107c.D
		l[1] = &x.Z107c.z107d.C
		l[2] = &x.Z107c.z107d.D
		l[3] = &x.Z107c.z107d.a
		l[4] = &x.Z107c.z107d.B
		l[5] = &x.A
		if x.Z107b != nil {
			l[6] = &x.Z107b.B
		}
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"D", 0, false, true, nil, -1, []int{}}, {"c", 1, false, false, nil, -1, []int{}}, {"b", 2, false, true, nil, -1, []int{}}, {"A", 4, false, false, nil, -1, []int{}}, {"B", 5, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"a", 6, false, false, nil, -1, []int{}}}, 0, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z108a{}
		if !null(0) {
			x.Z108b.Z108f = &Z108f{}
		}
		if !null(1) {
			x.z108e = &z108e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z108a)
		l := make([]*int, 12)
		l[0] = &x.Z108b.A
		l[1] = &x.Z108b.z108c.z108e.D
		l[2] = &x.Z108b.z108c.z108e.B
		l[3] = &x.Z108b.z108c.Ab
		l[4] = &x.Z108b.z108c.Z108d.A
		l[5] = &x.Z108b.z108c.Z108d.B
		l[6] = &x.Z108b.C
		l[7] = &x.Z108b.D
		if x.z108e != nil {
			l[8] = &x.z108e.D
		}
		if x.z108e != nil {
			l[9] = &x.z108e.B
		}
		l[10] = &x.D
		l[11] = &x.C
		_ = x
		return l
	},
		[]bool{true, false}, [][]int{{}, {}},
		[]zm{{"c", -1, false, false, []zm{{"Ab", 3, true, false, nil, -1, []int{}}, {"A", 4, false, false, nil, -1, []int{}}, {"B", 6, false, false, nil, -1, []int{}}, {"D", 7, false, false, nil, -1, []int{}}}, -1, []int{}}, {"B", 9, false, false, nil, -1, []int{1}}, {"D", 10, false, false, nil, -1, []int{}}, {"C", 11, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z111a{}
		if !null(0) {
			x.Z111b.z111c.Z111d = &Z111d{}
		}
		if !null(1) {
			x.Z111b.Z111e.z111f = &z111f{}
		}
		if !null(2) {
			x.Z111e.z111f = &z111f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z111a)
		l := make([]*int, 11)
		l[0] = &x.Z111b.Ab
		l[1] = &x.Z111b.a
		l[2] = &x.Z111b.z111c.Ab
		l[3] = &x.Z111b.z111c.A
		l[4] = &x.Z111b.z111c.a
		if x.Z111b.z111c.Z111d != nil {
			l[5] = (*int)(&x.Z111b.z111c.Z111d.ZN111)
		}
		if x.Z111b.Z111e.z111f != nil {
			l[6] = &x.Z111b.Z111e.z111f.A
		}
		if x.Z111b.Z111e.z111f != nil {
			l[7] = &x.Z111b.Z111e.z111f.B
		}
		l[8] = &x.A
		if x.Z111e.z111f != nil {
			l[9] = &x.Z111e.z111f.A
		}
		if x.Z111e.z111f != nil {
			l[10] = &x.Z111e.z111f.B
		}
		_ = x
		return l
	},
		[]bool{true, false, false}, [][]int{{}, {}, {}},
		[]zm{{"c", -1, false, false, []zm{{"Ab", 0, false, false, nil, -1, []int{}}, {"b", 2, false, false, nil, -1, []int{}}, {"A", 3, false, false, nil, -1, []int{}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z112a{}
		if !null(0) {
			x.Z112b.Z112d = &Z112d{}
		}
		if !null(1) {
			x.Z112b.Z112c.Z112d = &Z112d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z112a)
		l := make([]*int, 7)
		l[0] = &x.C
		if x.Z112b.Z112d != nil {
			l[1] = &x.Z112b.Z112d.B
		}
		if x.Z112b.Z112d != nil {
			l[2] = &x.Z112b.Z112d.D
		}
		if x.Z112b.Z112d != nil {
			l[3] = &x.Z112b.Z112d.C
		}
		if x.Z112b.Z112c.Z112d != nil {
			l[4] = &x.Z112b.Z112c.Z112d.B
		}
		if x.Z112b.Z112c.Z112d != nil {
			l[5] = &x.Z112b.Z112c.Z112d.D
		}
		if x.Z112b.Z112c.Z112d != nil {
			l[6] = &x.Z112b.Z112c.Z112d.C
		}
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {}},
		[]zm{{"a<", 0, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"B", 1, false, false, nil, -1, []int{0}}, {"b", 2, false, false, nil, -1, []int{0}}, {"C", 3, false, false, nil, -1, []int{0}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z114a{}
		if !null(0) {
			x.Z114b = &Z114b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z114a)
		l := make([]*int, 6)
		l[0] = (*int)(&x.ZN114)
		if x.Z114b != nil {
			l[1] = &x.Z114b.C
		}
		if x.Z114b != nil {
			l[2] = (*int)(&x.Z114b.Z114c.z114d.ZN114)
		}
		if x.Z114b != nil {
			l[3] = &x.Z114b.Z114c.z114d.a
		}
		if x.Z114b != nil {
			l[4] = &x.Z114b.Z114c.Ab
		}
		l[5] = &x.A
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"ZN114", 0, false, false, nil, -1, []int{}}, {"C", 1, false, true, nil, -1, []int{0}}, {"a", -1, false, false, []zm{{"a", 2, false, false, nil, -1, []int{}}}, -1, []int{0}}, {"c", 4, false, false, nil, -1, []int{0}}, {"A", 5, true, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z116a{}
		if !null(0) {
			x.Z116b.Z116c.Z116d = &Z116d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z116a)
		l := make([]*int, 11)
		l[0] = &x.Z116b.Z116c.B
		l[1] = &x.Z116b.Z116c.Ab
		l[2] = (*int)(&x.Z116b.ZN116)
		l[3] = &x.Z116b.Z116e.B
		l[4] = &x.Z116b.Z116e.A
		l[5] = &x.Z116b.Z116e.Z116f.B
		l[6] = &x.Z116b.Z116e.Z116f.a
		l[7] = &x.Z116b.Z116e.Z116f.C
		l[8] = &x.Z116b.Z116e.Z116f.A
		l[9] = &x.Z116b.Z116e.C
		l[10] = &x.D
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"a", 2, false, false, nil, -1, []int{}}, {"B", 5, false, true, nil, -1, []int{}}, {"A", 8, true, false, nil, -1, []int{}}, {"b", 9, false, true, nil, -1, []int{}}, {"c", -1, false, false, []zm{}, -1, []int{}}, {"ab", 10, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z117a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z117a)
		l := make([]*int, 5)
		l[0] = &x.z117b.B
		l[1] = &x.z117b.D
		l[2] = &x.z117b.A
		l[3] = &x.a
		l[4] = &x.A
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[]zm{}},
	{func(null func(int) bool) interface{} {
		x := &Z118a{}
		if !null(0) {
			x.z118b.Z118c.Z118e = &Z118e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z118a)
		l := make([]*int, 3)
		l[0] = &x.D
		l[1] = &x.B
		l[2] = &x.z118b.Ab
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"b", 0, false, false, nil, -1, []int{}}, {"a", 2, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z119a{}
		if !null(0) {
			x.Z119b = &Z119b{}
		}
		if x.Z119b != nil && !null(1) {
			x.Z119b.z119c.Z119e = &Z119e{}
		}
		if x.Z119b != nil && !null(2) {
			x.Z119b.z119c.Z119d = &Z119d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z119a)
		l := make([]*int, 9)
		if x.Z119b != nil {
			l[0] = (*int)(&x.Z119b.zn119)
		}
		if x.Z119b != nil {
			l[1] = &x.Z119b.z119c.a
		}
		if x.Z119b != nil {
			l[2] = &x.Z119b.z119c.C
		}
		if x.Z119b != nil && x.Z119b.z119c.Z119e != nil {
			l[3] = &x.Z119b.z119c.Z119e.C
		}
		if x.Z119b != nil && x.Z119b.z119c.Z119e != nil {
			l[4] = (*int)(&x.Z119b.z119c.Z119e.zn119)
		}
		if x.Z119b != nil && x.Z119b.z119c.Z119e != nil {
			l[5] = &x.Z119b.z119c.Z119e.B
		}
		if x.Z119b != nil && x.Z119b.z119c.Z119d != nil {
			l[6] = (*int)(&x.Z119b.z119c.Z119d.zn119)
		}
		l[7] = &x.A
		l[8] = &x.D
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {0}, {0}},
		[]zm{{"c", -1, false, false, []zm{{"a<", 2, false, false, nil, -1, []int{}}, {"ab", 3, false, false, nil, -1, []int{1}}, {"B", 5, false, false, nil, -1, []int{1}}}, -1, []int{0}}, {"A", 7, true, false, nil, -1, []int{}}, {"b", 8, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z120a{}
		if !null(0) {
			x.Z120c = &Z120c{}
		}
		if !null(1) {
			x.z120b = &z120b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z120a)
		l := make([]*int, 9)
		l[0] = &x.a
		if x.Z120c != nil {
			l[1] = &x.Z120c.z120d.B
		}
		if x.Z120c != nil {
			l[2] = &x.Z120c.z120d.A
		}
		if x.Z120c != nil {
			l[3] = &x.Z120c.D
		}
		if x.Z120c != nil {
			l[4] = &x.Z120c.Ab
		}
		if x.z120b != nil {
			l[5] = &x.z120b.D
		}
		if x.z120b != nil {
			l[6] = &x.z120b.C
		}
		l[7] = &x.B
		l[8] = &x.C
		_ = x
		return l
	},
		[]bool{true, false}, [][]int{{}, {}},
		[]zm{{"c", -1, true, false, []zm{{"B", 2, false, false, nil, -1, []int{}}, {"D", 3, true, false, nil, -1, []int{}}, {"a", 4, true, false, nil, -1, []int{}}}, 0, []int{}}, {"b", 5, false, true, nil, -1, []int{1}}, {"A", 6, false, false, nil, -1, []int{1}}, {"é", 7, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z121a{}
		if !null(0) {
			x.Z121b.Z121c.Z121d = &Z121d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z121a)
		l := make([]*int, 7)
		l[0] = (*int)(&x.zn121)
		l[1] = &x.Z121b.z121e.A
		if x.Z121b.Z121c.Z121d != nil {
			l[2] = &x.Z121b.Z121c.Z121d.C
		}
		if x.Z121b.Z121c.Z121d != nil {
			l[3] = &x.Z121b.Z121c.Z121d.B
		}
		l[4] = &x.Z121b.C
		l[5] = &x.Ab
		l[6] = &x.A
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"c", 1, true, true, nil, -1, []int{}}, {"C", 2, false, false, nil, -1, []int{0}}, {"-", 3, true, false, nil, -1, []int{0}}, {"a", 5, true, false, nil, -1, []int{}}, {"A", 6, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z123a{}
		if !null(0) {
			x.Z123d.Z123e.Z123f = &Z123f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z123a)
		l := make([]*int, 10)
		l[0] = &x.B
		l[1] = (*int)(&x.Z123d.Z123e.ZN123)
		l[2] = &x.Z123d.Z123e.D
		l[3] = &x.Z123d.Z123e.B
		l[4] = &x.Z123d.D
		l[5] = &x.Z123d.B
		l[6] = &x.Z123d.a
		l[7] = &x.z123b.D
		l[8] = (*int)(&x.z123b.Z123c.ZN123)
		l[9] = &x.z123b.C
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"B", 0, true, false, nil, -1, []int{}}, {"A", 3, false, false, nil, -1, []int{}}, {"D", 4, false, false, nil, -1, []int{}}, {"a", 5, true, false, nil, -1, []int{}}, {"b", 9, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z125a{}
		if !null(0) {
			x.Z125c = &Z125c{}
		}
		if x.Z125c != nil && !null(1) {
			x.Z125c.Z125e = &Z125e{}
		}
		if x.Z125c != nil && !null(2) {
			x.Z125c.Z125d = &Z125d{}
		}
		if x.Z125c != nil && x.Z125c.Z125d != nil && !null(3) {
			x.Z125c.Z125d.Z125e = &Z125e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z125a)
		l := make([]*int, 9)
		if x.Z125c != nil && x.Z125c.Z125e != nil {
			l[0] = (*int)(&x.Z125c.Z125e.ZN125)
		}
		if x.Z125c != nil && x.Z125c.Z125d != nil {
			l[1] = &x.Z125c.Z125d.D
		}
		if x.Z125c != nil && x.Z125c.Z125d != nil {
			l[2] = &x.Z125c.Z125d.Z125f.B
		}
		if x.Z125c != nil && x.Z125c.Z125d != nil {
			l[3] = (*int)(&x.Z125c.Z125d.Z125f.ZN125)
		}
		if x.Z125c != nil && x.Z125c.Z125d != nil {
			l[4] = &x.Z125c.Z125d.Z125f.D
		}
		if x.Z125c != nil && x.Z125c.Z125d != nil && x.Z125c.Z125d.Z125e != nil {
			l[5] = (*int)(&x.Z125c.Z125d.Z125e.ZN125)
		}
		if x.Z125c != nil {
			l[6] = &x.Z125c.a
		}
		l[7] = (*int)(&x.zn125)
		l[8] = &x.Ab
		_ = x
		return l
	},
		[]bool{true, true, true, true}, [][]int{{}, {0}, {0}, {0, 2}},
		[]zm{{"a", 8, true, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z126a{}
		if !null(0) {
			x.z126b = &z126b{}
		}
		if !null(1) {
			x.z126c = &z126c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z126a)
		l := make([]*int, 3)
		l[0] = &x.C
		l[1] = &x.Ab
		if x.z126c != nil {
			l[2] = &x.z126c.Ab
		}
		_ = x
		return l
	},
		[]bool{false, false}, [][]int{{}, {}},
		[]zm{{"C", 0, false, false, nil, -1, []int{}}, {"A", 2, false, false, nil, -1, []int{1}}}},
	{func(null func(int) bool) interface{} {
		x := &Z128a{}
		if !null(0) {
			x.Z128c = &Z128c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z128a)
		l := make([]*int, 7)
		if x.Z128c != nil {
			l[0] = &x.Z128c.Ab
		}
		if x.Z128c != nil {
			l[1] = &x.Z128c.A
		}
		l[2] = (*int)(&x.ZN128)
		l[3] = &x.A
		l[4] = &x.C
		l[5] = &x.B
		l[6] = &x.Z128b.A
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"ab", 1, false, false, nil, -1, []int{0}}, {"b", 2, true, false, nil, -1, []int{}}, {"A", 3, false, false, nil, -1, []int{}}, {"C", 4, false, false, nil, -1, []int{}}, {"B", 5, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"A", 6, false, true, nil, -1, []int{}}}, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z129a{}
		if !null(0) {
			x.z129b = &z129b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z129a)
		l := make([]*int, 3)
		l[0] = &x.A
		if x.z129b != nil {
			l[1] = &x.z129b.a
		}
		l[2] = &x.Z129c.A
		_ = x
		return l
	},
		[]bool{false}, [][]int{{}},
		[]zm{{"A", 0, false, false, nil, -1, []int{}}, {"b", 2, false, true, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z130a{}
		if !null(0) {
			x.Z130b.Z130c.Z130d = &Z130d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z130a)
		l := make([]*int, 7)
		l[0] = &x.Z130b.Ab
		if x.Z130b.Z130c.Z130d != nil {
			l[1] = &x.Z130b.Z130c.Z130d.A
		}
		if x.Z130b.Z130c.Z130d != nil {
			l[2] = &x.Z130b.Z130c.Z130d.C
		}
		l[3] = (*int)(&x.Z130b.ZN130)
		l[4] = (*int)(&x.ZN130)
		l[5] = &x.D
		l[6] = &x.A
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"a", -1, false, false, []zm{{"a<", 0, false, false, nil, -1, []int{}}, {"ab", 1, false, false, nil, -1, []int{0}}, {"C", 2, false, false, nil, -1, []int{0}}, {"ZN130", 3, false, false, nil, -1, []int{}}}, -1, []int{}}, {"ZN130", 4, false, false, nil, -1, []int{}}, {"D", 5, false, false, nil, -1, []int{}}, {"B", 6, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z131a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z131a)
		l := make([]*int, 6)
		l[0] = &x.A
		l[1] = &x.a
		l[2] = &x.C
		l[3] = &x.Z131b.A
		l[4] = &x.Z131b.a
		l[5] = &x.Z131b.C
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[]zm{{"B", 0, false, false, nil, -1, []int{}}, {"ab", 2, false, false, nil, -1, []int{}}, {"A", 3, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z133a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z133a)
		l := make([]*int, 9)
		l[0] = &x.Z133b.B
		l[1] = &x.Z133b.Z133c.D
		l[2] = &x.Z133b.Z133c.Z133d.A
		l[3] = &x.Z133b.Z133c.Z133d.B
		l[4] = &x.Z133b.D
		l[5] = &x.B
		l[6] = &x.Z133d.A
		l[7] = &x.Z133d.B
		l[8] = &x.A
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[]zm{{"c", 1, false, false, nil, -1, []int{}}, {"B", 4, false, false, nil, -1, []int{}}, {"ab", 5, false, false, nil, -1, []int{}}, {"A", 8, false, true, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z134a{}
		if !null(0) {
			x.Z134b.Z134e = &Z134e{}
		}
		if !null(1) {
			x.Z134b.Z134c.Z134d = &Z134d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z134a)
		l := make([]*int, 11)
		l[0] = &x.Z134b.B
		if x.Z134b.Z134e != nil {
			l[1] = &x.Z134b.Z134e.D
		}
		if x.Z134b.Z134e != nil {
			l[2] = &x.Z134b.Z134e.A
		}
		l[3] = &x.Z134b.C
		l[4] = &x.Z134b.Z134c.B
		if x.Z134b.Z134c.Z134d != nil {
			l[5] = &x.Z134b.Z134c.Z134d.C
		}
		if x.Z134b.Z134c.Z134d != nil {
			l[6] = &x.Z134b.Z134c.Z134d.D
		}
		l[7] = &x.C
		l[8] = &x.D
		l[9] = &x.a
		l[10] = &x.B
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {}},
		[]zm{{"a<", 8, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z135a{}
		if !null(0) {
			x.Z135b.Z135c.Z135e = &Z135e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z135a)
		l := make([]*int, 12)
		l[0] = &x.D
		l[1] = &x.Z135b.Z135c.z135f.D
		l[2] = (*int)(&x.Z135b.Z135c.z135f.zn135)
		if x.Z135b.Z135c.Z135e != nil {
			l[3] = &x.Z135b.Z135c.Z135e.Ab
		}
		if x.Z135b.Z135c.Z135e != nil {
			l[4] = &x.Z135b.Z135c.Z135e.B
		}
		l[5] = &x.Z135b.Z135c.C
		l[6] = &x.Z135b.Z135c.z135d.Ab
		l[7] = &x.Z135b.Z135c.z135d.B
		l[8] = &x.Z135b.D
		l[9] = (*int)(&x.Z135b.ZN135)
		l[10] = &x.Ab
		l[11] = &x.z135g.Ab
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[]zm{{"D", 0, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"a", -1, false, false, []zm{{"Ab", 3, false, false, nil, -1, []int{}}, {"A", 4, false, false, nil, -1, []int{}}}, 0, []int{}}, {"b", 5, false, true, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"Ab", 6, false, false, nil, -1, []int{}}, {"b", 7, false, false, nil, -1, []int{}}}, -1, []int{}}}, -1, []int{}}, {"b", 9, true, false, nil, -1, []int{}}, {"Ab", 10, true, false, nil, -1, []int{}}, {"ab", 11, false, false, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z137a{}
		if !null(0) {
			x.z137b.z137c.z137d = &z137d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z137a)
		l := make([]*int, 15)
		l[0] = &x.z137b.z137g.B
		l[1] = &x.z137b.z137g.A
		l[2] = &x.z137b.z137g.D
		l[3] = &x.z137b.z137c.Z137f.C
		l[4] = (*int)(&x.z137b.z137c.ZN137)
		if x.z137b.z137c.z137d != nil {
			l[5] = &x.z137b.z137c.z137d.D
		}
		if x.z137b.z137c.z137d != nil {
			l[6] = &x.z137b.z137c.z137d.A
		}
		if x.z137b.z137c.z137d != nil {
			l[7] = &x.z137b.z137c.z137d.Ab
		}
		l[8] = &x.z137b.z137c.D
		l[9] = &x.z137b.z137c.Z137e.D
		l[10] = &x.z137b.z137c.Z137e.C
		l[11] = &x.z137b.z137c.a
		l[12] = &x.z137b.Ab
		l[13] = &x.z137b.A
		l[14] = &x.Ab
		_ = x
		return l
	},
		[]bool{false}, [][]int{{}},
		[]zm{{"a", 0, false, false, nil, -1, []int{}}, {"é", 1, false, false, nil, -1, []int{}}, {"-", 2, false, true, nil, -1, []int{}}, {"Ab", 12, true, false, nil, -1, []int{}}, {"A", 13, false, false, nil, -1, []int{}}, {"c", 14, true, true, nil, -1, []int{}}}},
	{func(null func(int) bool) interface{} {
		x := &Z141a{}
		if !null(0) {
			x.z141b = &z141b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Z141a)
		l := make([]*int, 3)
		if x.z141b != nil {
			l[0] = &x.z141b.A
		}
		l[1] = &x.Ab
		l[2] = &x.C
		_ = x
		return l
	},
		[]bool{false}, [][]int{{}},
		[]zm{{"B", 0, false, false, nil, -1, []int{0}}, {"é", 1, false, false, nil, -1, []int{}}, {"C", 2, false, false, nil, -1, []int{}}}},
}
