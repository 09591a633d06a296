// Code generated by gen/zoo.py; DO NOT EDIT.
package h

type (
	Y0a struct {
		y0c `json:"c,omitempty"`
		y0b
		Ab int `json:",string"`
	}
	y0b struct {
		YN0 `json:"b,omitempty" db:"ab,omitempty"`
		D   int `json:"c,omitempty,string" db:",omitempty"`
	}
	y0c struct {
		A   int `json:"-" db:"a"`
		yn0 `json:"a"`
		D   int `json:"a,omitempty" db:"D"`
	}
	YN0 int
	yn0 int
)
type (
	Y1a struct {
		D    int `json:"-"`
		*Y1b `json:"c,omitempty"`
	}
	Y1b struct {
		y1e
		Y1c
		B int `json:"B,foo" db:"D"`
	}
	Y1c struct {
		*Y1d `db:"d"`
		B    int `json:"-" db:"a"`
		D    int `json:",string" db:"d,string"`
	}
	Y1d struct {
	}
	y1e struct {
		Y1f `db:"a"`
		C   int `json:"é" db:"-"`
	}
	Y1f struct {
		Ab int `json:"b"`
	}
)
type (
	Y2a struct {
		C int `db:"ab,omitempty"`
		Y2b
		YN2 `json:"b,omitempty" db:"ab,omitempty"`
		Ab  int `db:"d"`
	}
	Y2b struct {
		Ab int `db:"d"`
		y2c
	}
	y2c struct {
		B    int `json:"-,string" db:"b"`
		D    int `json:",string" db:"a"`
		*Y2e `json:"a"`
		*Y2d `json:"a" db:"d"`
	}
	Y2d struct {
		yn2 `json:"a" db:"d,string"`
	}
	Y2e struct {
		A int `json:",omitempty" db:"ab,omitempty"`
		a int
		B int `json:"a" db:"D"`
	}
	YN2 int
	yn2 int
)
type (
	Y3a struct {
		*y3e
		y3b `db:"d"`
		Ab  int `json:"a,omitempty" db:"D"`
	}
	y3b struct {
		A int `json:"A" db:"d"`
		Y3c
		Ab int `json:"a" db:"-"`
	}
	Y3c struct {
		y3e
		*Y3d `db:"a"`
		YN3  `json:"a" db:"d,string"`
	}
	Y3d struct {
		A int `json:"é" db:"a"`
	}
	y3e struct {
	}
	YN3 int
)
type (
	Y5a struct {
		Ab  int `json:",omitempty" db:"d"`
		B   int `json:",string" db:"d"`
		y5h `db:"a"`
		Y5f `db:"a"`
		Y5b
	}
	Y5b struct {
		*Y5f
		*y5c
		Y5e
		*Y5a
	}
	y5c struct {
		Y5d
		*Y5e `db:"d"`
		Ab   int `json:"B,foo"`
		C    int `json:"a" db:"-"`
	}
	Y5d struct {
		yn5 `json:"a" db:"d"`
	}
	Y5e struct {
		B int `db:"d,string"`
		A int `json:"A" db:"d"`
		C int `json:",omitempty" db:"d,string"`
	}
	Y5f struct {
		Y5g `json:"a"`
	}
	Y5g struct {
	}
	y5h struct {
		B int `json:"c,omitempty,string" db:"-"`
	}
	yn5 int
)
type (
	Y8a struct {
		B    int `db:"a"`
		*Y8b `json:"c,omitempty"`
		C    int `json:"é" db:"ab,omitempty"`
		Ab   int `json:"x'y" db:"D"`
	}
	Y8b struct {
		B int `json:"-" db:"-"`
		*y8c
		a int `db:"ab,omitempty"`
		Y8e
	}
	y8c struct {
		*y8d
		C int `json:"é" db:"d"`
	}
	y8d struct {
		C int `json:"B,foo" db:"ab,omitempty"`
	}
	Y8e struct {
		*y8f
		Ab int `db:"ab,omitempty"`
	}
	y8f struct {
		A int `db:"d,string"`
	}
)
type (
	Y9a struct {
		B   int `db:"d,string"`
		Y9b `db:"d"`
	}
	Y9b struct {
		*Y9c
		*Y9e `json:"c,omitempty" db:"a"`
	}
	Y9c struct {
		A int `json:",string" db:"d,string"`
		*y9d
		D int `db:"-"`
		C int `json:"-,"`
	}
	y9d struct {
		D int `json:"-,"`
		C int `json:"a" db:",omitempty"`
	}
	Y9e struct {
		a int `db:"D"`
		Y9f
	}
	Y9f struct {
		A int `json:"b" db:"-"`
	}
)
type (
	Y11a struct {
		Y11g
		y11b `json:"c,omitempty"`
		D    int `json:"x'y" db:"b"`
	}
	y11b struct {
		A     int `json:"c,omitempty,string" db:"d,string"`
		*Y11c `json:"c,omitempty"`
		*Y11a
		Y11f
		*Y11g
	}
	Y11c struct {
		B int `json:",string"`
		a int `json:"a" db:",omitempty"`
		*y11d
		C int `json:"é" db:"b"`
		Y11e
	}
	y11d struct {
		A  int `json:"B,foo"`
		Ab int `json:"ab" db:"d,string"`
		D  int `json:"A" db:"-"`
	}
	Y11e struct {
		A int `json:"-" db:"D"`
	}
	Y11f struct {
		B int `json:",omitempty" db:"a"`
	}
	Y11g struct {
		Ab int `json:"-" db:"D"`
		A  int `json:"B,foo" db:"D"`
		B  int `json:",omitempty" db:"b"`
	}
)
type (
	Y12a struct {
		*Y12b
		C int `json:"c,omitempty,string"`
	}
	Y12b struct {
		B int `json:"x'y"`
		C int `json:"é" db:"d,string"`
		Y12c
		*Y12f `db:"a"`
		A     int `json:",string" db:"b"`
	}
	Y12c struct {
		D int `json:",omitempty"`
		*y12d
		Ab    int `json:"A"`
		*Y12e `json:"c,omitempty"`
	}
	y12d struct {
		C int `json:"-," db:"-"`
	}
	Y12e struct {
		A int `json:"B,foo"`
	}
	Y12f struct {
		Ab   int `json:"c,omitempty,string" db:"a"`
		YN12 `db:"ab,omitempty"`
		D    int `json:"c,omitempty,string" db:",omitempty"`
	}
	YN12 int
)
type (
	Y13a struct {
		B    int
		Ab   int `json:"é"`
		C    int `json:"é" db:",omitempty"`
		Y13b `db:"a"`
	}
	Y13b struct {
		yn13 `json:"a" db:"d,string"`
		*Y13a
		A  int `json:"A" db:"a"`
		Ab int `json:",omitempty" db:"ab,omitempty"`
	}
	yn13 int
)
type (
	Y14a struct {
		C    int `json:"x'y" db:"d"`
		y14c `db:"a"`
		A    int `json:"a<" db:",omitempty"`
		Y14b `json:"c,omitempty"`
	}
	Y14b struct {
		D int
		*y14c
	}
	y14c struct {
	}
)
type (
	Y15a struct {
		Ab int `json:"x'y" db:"D"`
		Y15e
		*y15b
	}
	y15b struct {
		a int `json:"a" db:"ab,omitempty"`
		Y15c
	}
	Y15c struct {
		B     int `json:"-,"`
		*Y15d `json:"c,omitempty"`
	}
	Y15d struct {
		C  int `json:"-," db:"a"`
		Ab int `json:"-," db:"d,string"`
	}
	Y15e struct {
		*y15f
		YN15 `json:"b,omitempty" db:"D"`
	}
	y15f struct {
		D int `json:",string"`
		Y15g
	}
	Y15g struct {
		Ab int
		D  int `json:"c,omitempty,string" db:"a"`
	}
	YN15 int
)
type (
	Y16a struct {
		B    int `json:",string" db:"ab,omitempty"`
		C    int `json:"a,omitempty" db:"-"`
		y16b `db:"a"`
	}
	y16b struct {
		D    int `json:"b,string" db:"d"`
		YN16 `json:"a" db:"a"`
		y16c
	}
	y16c struct {
		Ab int `json:"-"`
		A  int `json:"c" db:"b"`
		Y16d
	}
	Y16d struct {
		A    int `json:"b"`
		YN16 `db:"b"`
		D    int `json:"x'y" db:"d,string"`
	}
	YN16 int
)
type (
	Y17a struct {
		*Y17g `json:"a"`
		D     int `db:",omitempty"`
		*Y17b `json:"a"`
		Ab    int `json:",string" db:"a"`
		B     int `json:"b,string"`
	}
	Y17b struct {
		*Y17a
		*y17c
	}
	y17c struct {
		Y17e
		y17f
		*Y17d `db:"d"`
	}
	Y17d struct {
		a  int `json:"a" db:",omitempty"`
		B  int `db:"ab,omitempty"`
		A  int `json:",string" db:"b"`
		Ab int `json:"ab" db:"-"`
	}
	Y17e struct {
	}
	y17f struct {
		C int `json:",omitempty" db:"D"`
		yn17
	}
	Y17g struct {
		*Y17a
		yn17 `json:"a" db:"d,string"`
		C    int `json:"a,omitempty" db:"a"`
		D    int
	}
	yn17 int
)
type (
	Y20a struct {
		y20b
		C  int `json:"b" db:"-"`
		Ab int `json:"ab" db:"ab,omitempty"`
		A  int `json:"-"`
	}
	y20b struct {
		*y20c
		*Y20d
		C int `json:"b,string" db:"b"`
	}
	y20c struct {
	}
	Y20d struct {
		Y20e
		C int `json:"c,omitempty,string" db:"-"`
		*y20f
		B int `json:"a,omitempty"`
		A int `db:"-"`
	}
	Y20e struct {
	}
	y20f struct {
		a int `json:"a" db:",omitempty"`
	}
)
type (
	Y21a struct {
		B     int `json:",omitempty" db:"d"`
		*Y21b `json:"c,omitempty"`
	}
	Y21b struct {
		B int `json:",omitempty" db:"b"`
		*Y21c
	}
	Y21c struct {
		y21e `json:"c,omitempty"`
		yn21 `json:"a"`
		A    int `db:"ab,omitempty"`
		Y21d `json:"c,omitempty"`
	}
	Y21d struct {
		A int `json:"a,omitempty" db:"a"`
	}
	y21e struct {
		D int `json:"a,omitempty" db:"D"`
		A int `json:"a"`
	}
	yn21 int
)
type (
	Y22a struct {
		a int `json:"a"`
		Y22b
		A     int `json:"a" db:"a"`
		*Y22f `db:"d"`
	}
	Y22b struct {
		*Y22c
	}
	Y22c struct {
		Y22d
		*y22e
	}
	Y22d struct {
		C int `json:"a<" db:",omitempty"`
		A int `json:"c"`
		a int `json:"b" db:"d"`
	}
	y22e struct {
		Ab int `json:"a,omitempty"`
		B  int `json:"-,omitempty" db:"b"`
	}
	Y22f struct {
		Y22c `json:"c,omitempty" db:"a"`
		YN22 `json:"b,omitempty" db:",omitempty"`
		y22g `json:"a" db:"a"`
	}
	y22g struct {
		B int `json:"a,omitempty" db:"b"`
	}
	YN22 int
)
type (
	Y24a struct {
		A     int `json:"-" db:",omitempty"`
		*Y24e `db:"d"`
		*y24b
		C int `json:",string" db:"-"`
	}
	y24b struct {
		*Y24c
	}
	Y24c struct {
		*Y24d
		A int `json:"a,omitempty" db:"D"`
		D int `json:"A" db:"d"`
	}
	Y24d struct {
		a int `json:"a"`
	}
	Y24e struct {
		C    int `db:"-"`
		D    int `db:"ab,omitempty"`
		Y24f `json:"c,omitempty" db:"a"`
	}
	Y24f struct {
		Y24g
		C  int `db:"a"`
		Ab int `json:"B,foo" db:"ab,omitempty"`
	}
	Y24g struct {
		B int `json:"x'y" db:"d,string"`
	}
)
type (
	Y25a struct {
		A int `db:"D"`
		Y25h
		D    int `json:"c,omitempty,string" db:"d,string"`
		C    int `json:"a<" db:"d"`
		a    int `json:"a" db:"b"`
		YN25 `json:"a" db:"d"`
		Y25b `json:"a"`
	}
	Y25b struct {
		A int `json:"b,string" db:"d,string"`
		y25c
		*Y25e
		C int `db:"d,string"`
	}
	y25c struct {
		*y25d
	}
	y25d struct {
		A  int `json:"c" db:",omitempty"`
		Ab int `json:"-" db:",omitempty"`
	}
	Y25e struct {
		*y25f
		*Y25g
		D int `db:"d,string"`
	}
	y25f struct {
	}
	Y25g struct {
		D int `json:",string" db:"b"`
		C int `json:"a,omitempty" db:",omitempty"`
	}
	Y25h struct {
		C int `json:",omitempty" db:"-"`
		B int `db:"D"`
	}
	YN25 int
)
type (
	Y26a struct {
		*y26b
		A int `json:"a<"`
	}
	y26b struct {
		Y26c
		A int `json:"a,omitempty" db:"d,string"`
		D int `json:"x'y" db:"b"`
	}
	Y26c struct {
	}
)
type (
	Y27a struct {
		*Y27b `db:"a"`
		A     int `db:"a"`
	}
	Y27b struct {
		B    int `json:"-,"`
		C    int
		D    int `json:",omitempty" db:"-"`
		Y27c `json:"a"`
	}
	Y27c struct {
		*Y27e `json:"a"`
		*Y27d
	}
	Y27d struct {
		D  int `json:"a<" db:"d,string"`
		Ab int `json:"c,omitempty,string" db:"d,string"`
		B  int `db:"a"`
	}
	Y27e struct {
		D int `json:"é" db:"b"`
	}
)
type (
	Y28a struct {
		C     int `db:"d,string"`
		*Y28b `json:"c,omitempty"`
		Ab    int `json:"a" db:"ab,omitempty"`
		Y28e
	}
	Y28b struct {
		C int `json:"a" db:"d,string"`
		*y28c
		B int `db:"D"`
	}
	y28c struct {
		Ab    int `json:"a,omitempty"`
		*Y28d `json:"a"`
		A     int `json:"B" db:"d,string"`
	}
	Y28d struct {
		C int `json:"A"`
	}
	Y28e struct {
		YN28  `json:"a"`
		Y28h  `json:"c,omitempty"`
		*Y28f `json:"a" db:"d"`
	}
	Y28f struct {
		Ab int `json:"-"`
		y28g
	}
	y28g struct {
		C int `json:",omitempty" db:"d"`
		A int `json:"ab" db:"d,string"`
	}
	Y28h struct {
		C int `db:"d"`
		a int `db:"D"`
		D int `json:"-,omitempty" db:"-"`
	}
	YN28 int
)
type (
	Y30a struct {
		Y30b `db:"d"`
		C    int `json:"a<" db:"ab,omitempty"`
		Ab   int `db:"d,string"`
	}
	Y30b struct {
		C int `json:"c" db:"d,string"`
	}
)
type (
	Y31a struct {
		Y31f
		y31b
		B int `json:"ab"`
	}
	y31b struct {
		*y31c
		y31e `json:"a"`
		C    int `json:"c,omitempty,string" db:"d,string"`
		Ab   int `db:"D"`
	}
	y31c struct {
		B int `json:"é" db:"d"`
		Y31d
		a int `json:"b" db:"b"`
		D int `json:"c,omitempty,string" db:"b"`
	}
	Y31d struct {
		*Y31a
	}
	y31e struct {
		A int `json:",string"`
		B int
		*Y31d
	}
	Y31f struct {
		y31g `json:"a"`
		Y31h `json:"c,omitempty"`
		D    int `db:"D"`
	}
	y31g struct {
		Ab int `json:"B"`
		B  int `json:"-"`
	}
	Y31h struct {
		D int `json:"a,omitempty" db:",omitempty"`
	}
)
type (
	Y33a struct {
		*y33d
		Y33b
		Y33c
		Ab int `json:",omitempty" db:"a"`
	}
	Y33b struct {
		*Y33c
		Ab int `json:"c" db:"d"`
		A  int `json:"-" db:"-"`
		a  int `json:"a" db:"-"`
	}
	Y33c struct {
		a int `json:"b" db:"D"`
		*Y33a
		YN33 `db:"a"`
	}
	y33d struct {
		*Y33e
		A int `json:",omitempty" db:"d"`
	}
	Y33e struct {
		A int `json:"b,string" db:"b"`
		D int `db:"d,string"`
	}
	YN33 int
)
type (
	Y34a struct {
		a    int `json:"b" db:"b"`
		YN34 `json:"b,omitempty" db:"ab,omitempty"`
		D    int `json:"c" db:"D"`
		*y34b
		Y34e
	}
	y34b struct {
		D     int `json:"a,omitempty" db:",omitempty"`
		y34d  `json:"c,omitempty"`
		*Y34c `json:"c,omitempty" db:"d"`
	}
	Y34c struct {
		A int `json:"A" db:"d,string"`
		*y34d
		Ab int `json:"-,omitempty" db:"b"`
	}
	y34d struct {
		a int `json:"a"`
	}
	Y34e struct {
		Y34c
		D int `json:"B" db:"b"`
		A int `json:",omitempty" db:"d"`
	}
	YN34 int
)
type (
	Y35a struct {
		B int `db:"d,string"`
		*Y35b
	}
	Y35b struct {
		y35c
		Y35f
	}
	y35c struct {
		Y35d
		*Y35e
		B int `json:",string" db:"a"`
		A int `json:"c,omitempty,string"`
	}
	Y35d struct {
		B int `json:"a" db:"d,string"`
		A int `json:"a<" db:",omitempty"`
		C int `json:"a,omitempty" db:"D"`
	}
	Y35e struct {
		A int `json:"a<" db:"a"`
		D int `json:"A" db:"d,string"`
	}
	Y35f struct {
		*y35g
	}
	y35g struct {
		yn35 `json:"a" db:"-"`
	}
	yn35 int
)
type (
	Y39a struct {
		D int `json:"-,"`
		a int `json:"a" db:"D"`
		*Y39b
		C int `json:"x'y" db:"-"`
	}
	Y39b struct {
		D  int `json:"é" db:"a"`
		C  int `json:"c,omitempty,string" db:"ab,omitempty"`
		Ab int `json:"a,omitempty" db:",omitempty"`
	}
)
type (
	Y41a struct {
		*Y41b
		C int `json:",omitempty" db:"d,string"`
		B int `json:"b"`
	}
	Y41b struct {
		Y41c
		A  int `json:"A" db:",omitempty"`
		B  int `json:"b,string" db:",omitempty"`
		Ab int `json:"a" db:"D"`
	}
	Y41c struct {
	}
)
type (
	Y43a struct {
		Ab int `json:",omitempty" db:"b"`
		*Y43g
		B int `json:"c"`
		Y43h
		Y43b `json:"c,omitempty"`
	}
	Y43b struct {
		*Y43a
		Y43f `json:"a"`
		A    int `json:"ab" db:",omitempty"`
		Ab   int `json:",omitempty"`
		y43c
	}
	y43c struct {
		*y43e
		y43d `db:"d"`
	}
	y43d struct {
		B int `json:"a,omitempty" db:",omitempty"`
	}
	y43e struct {
	}
	Y43f struct {
	}
	Y43g struct {
		D int `json:"b,string" db:"d"`
		A int `json:",omitempty" db:"a"`
	}
	Y43h struct {
		C int `json:"B,foo"`
	}
)
type (
	Y45a struct {
		B     int `db:"a"`
		C     int `db:"ab,omitempty"`
		A     int `json:"-," db:"d"`
		*Y45b `db:"d"`
	}
	Y45b struct {
		y45c
		C int `json:"c" db:"ab,omitempty"`
		A int `db:"b"`
	}
	y45c struct {
		A    int `json:"-" db:"D"`
		Y45d `db:"a"`
		Ab   int `db:"-"`
		*Y45a
		D int `db:",omitempty"`
	}
	Y45d struct {
		C int `json:"c,omitempty,string" db:"d,string"`
	}
)
type (
	Y46a struct {
		Y46c `db:"a"`
		A    int `json:"b,string" db:"a"`
		C    int `json:"-" db:"-"`
		Y46b `db:"a"`
		a    int `json:"b" db:",omitempty"`
	}
	Y46b struct {
		C  int `json:"B" db:"d,string"`
		Ab int `json:"B" db:"-"`
	}
	Y46c struct {
		Ab int `db:"d"`
		Y46d
		a    int `json:"a" db:"b"`
		A    int `json:"b" db:"b"`
		YN46 `json:"b,omitempty" db:"d,string"`
		C    int `db:"d"`
	}
	Y46d struct {
		D int `json:"c" db:"d"`
		B int `json:"B" db:"ab,omitempty"`
		Y46e
	}
	Y46e struct {
		Ab int `json:",omitempty" db:"ab,omitempty"`
		B  int `json:"B" db:"b"`
	}
	YN46 int
)
type (
	Y47a struct {
		Y47b `json:"a" db:"d"`
		D    int `json:"A" db:"d,string"`
		B    int `db:"b"`
	}
	Y47b struct {
		*Y47f `json:"a"`
		Ab    int `json:"ab" db:",omitempty"`
		Y47d
		*y47c
		C int `json:"A"`
	}
	y47c struct {
		A int `db:"ab,omitempty"`
	}
	Y47d struct {
		Y47e `db:"a"`
		yn47 `db:"b"`
	}
	Y47e struct {
		a int `db:"D"`
	}
	Y47f struct {
		B int `json:"é" db:"-"`
		*Y47g
		Ab int `json:"a" db:"a"`
		C  int `json:"B" db:"a"`
	}
	Y47g struct {
		B int `json:",string"`
		A int `db:"d,string"`
	}
	yn47 int
)
type (
	Y50a struct {
		Y50b `db:"d"`
		D    int `json:"b" db:"d,string"`
		A    int `db:"d"`
		Y50d `db:"a"`
	}
	Y50b struct {
		y50c
		A  int `json:"-" db:"a"`
		Ab int `json:"A" db:"d,string"`
	}
	y50c struct {
		C int `db:"b"`
	}
	Y50d struct {
		A int `json:"x'y" db:"-"`
		C int `json:"A" db:"a"`
	}
)
type (
	Y52a struct {
		D int `json:"a<"`
		Y52b
		Y52e `db:"d"`
		Ab   int `json:"-,omitempty" db:"d"`
	}
	Y52b struct {
		D  int `json:"x'y"`
		Ab int
		y52c
		C int `json:"-" db:",omitempty"`
	}
	y52c struct {
		C int `json:"A" db:"D"`
		Y52d
		B int `json:"a,omitempty" db:",omitempty"`
	}
	Y52d struct {
		D    int `json:",omitempty" db:"a"`
		YN52 `db:"d,string"`
		B    int `db:"ab,omitempty"`
	}
	Y52e struct {
		*y52c
	}
	YN52 int
)
type (
	Y53a struct {
		*Y53g
		B int `json:"a<"`
		*Y53b
		Y53c
	}
	Y53b struct {
	}
	Y53c struct {
		B int
		*Y53a
		y53d `json:"a"`
		*Y53e
	}
	y53d struct {
		a int `json:"a" db:"a"`
	}
	Y53e struct {
		C int `json:"B,foo"`
		A int `db:"d,string"`
		*Y53a
		y53f `json:"c,omitempty" db:"a"`
	}
	y53f struct {
		yn53 `db:"d"`
	}
	Y53g struct {
		A int `json:"B,foo" db:",omitempty"`
		C int `json:"B" db:"d,string"`
	}
	yn53 int
)
type (
	Y55a struct {
		Ab    int `json:",omitempty" db:",omitempty"`
		*Y55f `json:"c,omitempty"`
		Y55b  `db:"a"`
	}
	Y55b struct {
		y55c `db:"d"`
		yn55 `json:"a" db:"D"`
		Y55e
		Ab int `json:",omitempty" db:"a"`
	}
	y55c struct {
		B    int `json:"B,foo"`
		A    int `db:"ab,omitempty"`
		y55d `json:"c,omitempty"`
	}
	y55d struct {
		D int `json:"b,string" db:"D"`
		C int `json:"-,omitempty"`
	}
	Y55e struct {
	}
	Y55f struct {
		*Y55g
		Y55h `db:"d"`
	}
	Y55g struct {
		C int `json:"b,string" db:"d,string"`
	}
	Y55h struct {
		a int `json:"b" db:"-"`
		B int `db:"D"`
	}
	yn55 int
)
type (
	Y56a struct {
		Ab   int `db:"-"`
		C    int `json:"c,omitempty,string"`
		Y56b `json:"a"`
		yn56 `json:"b,omitempty" db:"-"`
	}
	Y56b struct {
		y56c
	}
	y56c struct {
		D int `json:",string"`
	}
	yn56 int
)
type (
	Y57a struct {
		*y57b
		Ab int `json:",omitempty" db:"ab,omitempty"`
		A  int `json:"A" db:"D"`
		B  int `json:"B,foo" db:"ab,omitempty"`
	}
	y57b struct {
		C    int `db:"d,string"`
		A    int `db:"d"`
		Y57c `json:"a"`
		*y57e
	}
	Y57c struct {
		Y57d `db:"a"`
		Ab   int `json:"B,foo" db:"D"`
	}
	Y57d struct {
		a int `json:"b" db:"-"`
	}
	y57e struct {
		*Y57a
		A    int `json:"a<" db:"d,string"`
		Ab   int `json:"-,"`
		Y57d `json:"c,omitempty"`
		YN57 `db:"D"`
	}
	YN57 int
)
type (
	Y58a struct {
		A int `json:"c,omitempty,string" db:"d,string"`
		a int `json:"b"`
		C int `json:"x'y" db:"a"`
		Y58c
		*y58b
		Y58g
	}
	y58b struct {
		Ab int `json:"x'y" db:",omitempty"`
		A  int `json:"c" db:"-"`
	}
	Y58c struct {
		*Y58d
	}
	Y58d struct {
		*Y58e
		YN58  `json:"a" db:"D"`
		*Y58f `db:"d"`
		*Y58a
		A int
	}
	Y58e struct {
		Ab int `db:",omitempty"`
	}
	Y58f struct {
		*Y58a
	}
	Y58g struct {
	}
	YN58 int
)
type (
	Y59a struct {
		*Y59b
		A int `json:"B,foo" db:"b"`
		B int `json:"a" db:"d"`
	}
	Y59b struct {
		B     int `json:"A"`
		*Y59c `db:"d"`
		Ab    int `db:"d,string"`
	}
	Y59c struct {
		*Y59e
		B    int `json:"b,string" db:"d"`
		Y59d `json:"c,omitempty" db:"a"`
		Ab   int `json:"c,omitempty,string"`
	}
	Y59d struct {
		B int `json:"a,omitempty"`
		A int `json:"é" db:",omitempty"`
		C int `json:"b,string" db:"b"`
	}
	Y59e struct {
		yn59 `json:"b,omitempty" db:"D"`
		B    int `json:"B,foo" db:"-"`
		C    int `json:"b,string" db:"a"`
	}
	yn59 int
)
type (
	Y63a struct {
		*y63f
		a int `db:",omitempty"`
		D int `json:"B" db:"b"`
		*Y63b
	}
	Y63b struct {
		*Y63e `json:"c,omitempty"`
		Y63c
		C int `json:"a,omitempty"`
		D int `db:"b"`
	}
	Y63c struct {
		*Y63e
		y63d `json:"c,omitempty"`
	}
	y63d struct {
		D  int `json:"B" db:",omitempty"`
		C  int `db:"d"`
		Ab int `json:"ab" db:"d"`
	}
	Y63e struct {
		YN63 `db:"ab,omitempty"`
	}
	y63f struct {
		C    int `db:"D"`
		Ab   int `json:"c" db:"d"`
		Y63g `json:"c,omitempty"`
	}
	Y63g struct {
		Ab int `json:"B" db:"d"`
		D  int `json:"a"`
		A  int `json:"-," db:"d,string"`
	}
	YN63 int
)
type (
	Y67a struct {
		Y67b
		A  int `json:"ab" db:"b"`
		Ab int `json:"ab" db:"a"`
	}
	Y67b struct {
		Y67e `json:"a"`
		*Y67g
		A    int `db:"-"`
		Ab   int `json:",omitempty" db:"a"`
		Y67c `json:"c,omitempty"`
	}
	Y67c struct {
		*Y67d
		C int `json:"B" db:"D"`
	}
	Y67d struct {
		a int `json:"a"`
		A int `json:"a" db:",omitempty"`
	}
	Y67e struct {
		Ab    int `json:",string" db:"d,string"`
		a     int `json:"a" db:"ab,omitempty"`
		*Y67f `db:"d"`
	}
	Y67f struct {
		Ab int `db:",omitempty"`
		C  int `json:"b,string" db:"b"`
	}
	Y67g struct {
		D int `json:"b,string"`
		C int `json:"a" db:"b"`
	}
)
type (
	Y68a struct {
		C int `json:"a,omitempty" db:"a"`
		B int `json:"B" db:"d"`
		*y68b
	}
	y68b struct {
		a     int `json:"a"`
		C     int `json:"a,omitempty"`
		B     int `json:"é" db:",omitempty"`
		D     int `json:"B,foo"`
		*Y68c `db:"d"`
	}
	Y68c struct {
		Y68e
		*Y68d
	}
	Y68d struct {
	}
	Y68e struct {
		C int `json:",string"`
		B int `json:"b" db:"b"`
	}
)
type (
	Y69a struct {
		B int `json:"a" db:"D"`
		*Y69b
		C  int `db:"a"`
		Ab int `json:"-," db:"a"`
	}
	Y69b struct {
		Y69c
		Ab int `json:"c,omitempty,string" db:"b"`
		B  int `json:"B" db:"ab,omitempty"`
	}
	Y69c struct {
		Y69d
	}
	Y69d struct {
		D int `db:"-"`
		B int `json:"B,foo"`
	}
)
type (
	Y71a struct {
		*Y71b
		D int `json:",omitempty" db:"a"`
		Y71e
		A int `json:"é" db:"a"`
	}
	Y71b struct {
		D int `json:",omitempty"`
		Y71c
		C    int `db:"b"`
		y71d `db:"a"`
		A    int `json:",string" db:"D"`
	}
	Y71c struct {
		*y71d
	}
	y71d struct {
		a int `json:"a" db:"D"`
	}
	Y71e struct {
		yn71 `db:"d"`
		C    int `json:"-,string" db:"ab,omitempty"`
	}
	yn71 int
)
type (
	Y73a struct {
		*y73b
		D int `json:"é"`
		C int `db:"d"`
	}
	y73b struct {
		A int `json:"b,string" db:"-"`
	}
)
type (
	Y75a struct {
		Ab int `json:"a,omitempty" db:"d,string"`
		C  int `json:"x'y" db:"b"`
		Y75b
	}
	Y75b struct {
		A     int `db:"b"`
		a     int `json:"a" db:"a"`
		*Y75c `json:"c,omitempty"`
		Ab    int `db:"D"`
	}
	Y75c struct {
		a int `json:"a" db:"d"`
	}
)
type (
	Y76a struct {
		Y76b
		Y76h
		Ab int `json:"b" db:"b"`
		*Y76g
		B int `db:"ab,omitempty"`
	}
	Y76b struct {
		YN76 `json:"b,omitempty" db:",omitempty"`
		Ab   int `json:"é" db:"ab,omitempty"`
		*y76e
		*y76c
	}
	y76c struct {
		Ab int `json:"-" db:"d"`
		C  int `json:"B"`
		Y76d
		B int `json:"-,omitempty" db:"-"`
	}
	Y76d struct {
		*Y76a
	}
	y76e struct {
		*y76f
		C int `json:"a"`
		D int `json:",string"`
	}
	y76f struct {
		Ab   int `json:"b"`
		yn76 `json:"a" db:"ab,omitempty"`
	}
	Y76g struct {
		YN76 `json:"a" db:",omitempty"`
		B    int `json:"a<" db:",omitempty"`
		a    int `db:"-"`
	}
	Y76h struct {
		a int `json:"a" db:"d,string"`
		B int `json:"B,foo" db:"a"`
	}
	YN76 int
	yn76 int
)
type (
	Y77a struct {
		Y77b `db:"d"`
		D    int `json:"-,string" db:"b"`
		Ab   int `db:"a"`
	}
	Y77b struct {
		C int `json:"é" db:"D"`
		Y77c
		A int `json:"b"`
	}
	Y77c struct {
		C int `json:"x'y" db:"D"`
		*Y77e
		Ab int `json:"b,string"`
		y77d
		A int `db:"d,string"`
	}
	y77d struct {
		*Y77a
	}
	Y77e struct {
		Ab int `json:"A" db:",omitempty"`
	}
)

var zooOpt = []stZooO{
	{func(null func(int) bool) interface{} {
		x := &Y0a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y0a)
		l := make([]*int, 6)
		l[0] = &x.y0c.A
		l[1] = (*int)(&x.y0c.yn0)
		l[2] = &x.y0c.D
		l[3] = (*int)(&x.y0b.YN0)
		l[4] = &x.y0b.D
		l[5] = &x.Ab
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[4][]zm{{{"c", -1, false, false, []zm{{"a", 2, true, false, nil, -1, []int{}}}, -1, []int{}}, {"b", 3, true, false, nil, -1, []int{}}, {"Ab", 5, false, true, nil, -1, []int{}}}, {{"a", 0, false, false, nil, -1, []int{}}, {"D", 2, false, false, nil, -1, []int{}}, {"ab", 3, true, false, nil, -1, []int{}}, {"Ab", 5, false, false, nil, -1, []int{}}}, {{"c", -1, false, false, []zm{{"a", 2, true, false, nil, -1, []int{}}}, -1, []int{}}, {"b", 3, true, false, nil, -1, []int{}}, {"Ab", 5, false, true, nil, -1, []int{}}}, {{"a", 0, false, false, nil, -1, []int{}}, {"D", 2, false, false, nil, -1, []int{}}, {"ab", 3, true, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y1a{}
		if !null(0) {
			x.Y1b = &Y1b{}
		}
		if x.Y1b != nil && !null(1) {
			x.Y1b.Y1c.Y1d = &Y1d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y1a)
		l := make([]*int, 6)
		l[0] = &x.D
		if x.Y1b != nil {
			l[1] = &x.Y1b.y1e.Y1f.Ab
		}
		if x.Y1b != nil {
			l[2] = &x.Y1b.y1e.C
		}
		if x.Y1b != nil {
			l[3] = &x.Y1b.Y1c.B
		}
		if x.Y1b != nil {
			l[4] = &x.Y1b.Y1c.D
		}
		if x.Y1b != nil {
			l[5] = &x.Y1b.B
		}
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {0}},
		[4][]zm{{{"c", -1, true, false, []zm{{"b", 1, false, false, nil, -1, []int{}}, {"é", 2, false, false, nil, -1, []int{}}, {"D", 4, false, true, nil, -1, []int{}}, {"B", 5, false, false, nil, -1, []int{}}}, 0, []int{}}}, {{"D", 0, false, false, nil, -1, []int{}}}, {{"c", -1, true, false, []zm{{"b", 1, false, false, nil, -1, []int{}}, {"é", 2, false, false, nil, -1, []int{}}, {"D", 4, false, true, nil, -1, []int{}}, {"B", 5, false, false, nil, -1, []int{}}}, 0, []int{}}}, {{"D", 5, false, false, nil, -1, []int{0}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y2a{}
		if !null(0) {
			x.Y2b.y2c.Y2e = &Y2e{}
		}
		if !null(1) {
			x.Y2b.y2c.Y2d = &Y2d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y2a)
		l := make([]*int, 10)
		l[0] = &x.C
		l[1] = &x.Y2b.Ab
		l[2] = &x.Y2b.y2c.B
		l[3] = &x.Y2b.y2c.D
		if x.Y2b.y2c.Y2e != nil {
			l[4] = &x.Y2b.y2c.Y2e.A
		}
		if x.Y2b.y2c.Y2e != nil {
			l[5] = &x.Y2b.y2c.Y2e.a
		}
		if x.Y2b.y2c.Y2e != nil {
			l[6] = &x.Y2b.y2c.Y2e.B
		}
		if x.Y2b.y2c.Y2d != nil {
			l[7] = (*int)(&x.Y2b.y2c.Y2d.yn2)
		}
		l[8] = (*int)(&x.YN2)
		l[9] = &x.Ab
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {}},
		[4][]zm{{{"C", 0, false, false, nil, -1, []int{}}, {"-", 2, false, true, nil, -1, []int{}}, {"D", 3, false, true, nil, -1, []int{}}, {"b", 8, true, false, nil, -1, []int{}}, {"Ab", 9, false, false, nil, -1, []int{}}}, {{"b", 2, false, false, nil, -1, []int{}}, {"a", 3, false, false, nil, -1, []int{}}, {"D", 6, false, false, nil, -1, []int{0}}, {"d", 9, false, false, nil, -1, []int{}}}, {{"-", 2, false, true, nil, -1, []int{}}, {"D", 3, false, true, nil, -1, []int{}}, {"b", 8, true, false, nil, -1, []int{}}}, {{"b", 2, false, false, nil, -1, []int{}}, {"a", 3, false, false, nil, -1, []int{}}, {"D", 6, false, false, nil, -1, []int{0}}, {"d", 9, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y3a{}
		if !null(0) {
			x.y3e = &y3e{}
		}
		if !null(1) {
			x.y3b.Y3c.Y3d = &Y3d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y3a)
		l := make([]*int, 5)
		l[0] = &x.y3b.A
		if x.y3b.Y3c.Y3d != nil {
			l[1] = &x.y3b.Y3c.Y3d.A
		}
		l[2] = (*int)(&x.y3b.Y3c.YN3)
		l[3] = &x.y3b.Ab
		l[4] = &x.Ab
		_ = x
		return l
	},
		[]bool{false, true}, [][]int{{}, {}},
		[4][]zm{{{"A", 0, false, false, nil, -1, []int{}}, {"é", 1, false, false, nil, -1, []int{1}}, {"a", 4, true, false, nil, -1, []int{}}}, {{"d", -1, false, false, []zm{{"d", 0, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"a", 1, false, false, nil, -1, []int{}}}, 1, []int{}}}, -1, []int{}}, {"D", 4, false, false, nil, -1, []int{}}}, {{"A", 0, false, false, nil, -1, []int{}}, {"é", 1, false, false, nil, -1, []int{1}}, {"a", 4, true, false, nil, -1, []int{}}}, {{"d", -1, false, false, []zm{{"d", 0, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"a", 1, false, false, nil, -1, []int{}}}, 1, []int{}}}, -1, []int{}}, {"D", 4, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y5a{}
		if !null(0) {
			x.Y5b.Y5f = &Y5f{}
		}
		if !null(1) {
			x.Y5b.y5c = &y5c{}
		}
		if x.Y5b.y5c != nil && !null(2) {
			x.Y5b.y5c.Y5e = &Y5e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y5a)
		l := make([]*int, 12)
		l[0] = &x.Ab
		l[1] = &x.B
		l[2] = &x.y5h.B
		if x.Y5b.y5c != nil {
			l[3] = (*int)(&x.Y5b.y5c.Y5d.yn5)
		}
		if x.Y5b.y5c != nil && x.Y5b.y5c.Y5e != nil {
			l[4] = &x.Y5b.y5c.Y5e.B
		}
		if x.Y5b.y5c != nil && x.Y5b.y5c.Y5e != nil {
			l[5] = &x.Y5b.y5c.Y5e.A
		}
		if x.Y5b.y5c != nil && x.Y5b.y5c.Y5e != nil {
			l[6] = &x.Y5b.y5c.Y5e.C
		}
		if x.Y5b.y5c != nil {
			l[7] = &x.Y5b.y5c.Ab
		}
		if x.Y5b.y5c != nil {
			l[8] = &x.Y5b.y5c.C
		}
		l[9] = &x.Y5b.Y5e.B
		l[10] = &x.Y5b.Y5e.A
		l[11] = &x.Y5b.Y5e.C
		_ = x
		return l
	},
		[]bool{true, false, true}, [][]int{{}, {}, {1}},
		[4][]zm{{{"Ab", 0, true, false, nil, -1, []int{}}, {"B", 1, false, true, nil, -1, []int{}}, {"c", 2, true, true, nil, -1, []int{}}, {"a", -1, false, false, []zm{}, -1, []int{}}, {"A", 10, false, false, nil, -1, []int{}}, {"C", 11, true, false, nil, -1, []int{}}}, {{"Ab", 7, false, false, nil, -1, []int{1}}}, {{"Ab", 0, true, false, nil, -1, []int{}}, {"B", 1, false, true, nil, -1, []int{}}, {"c", 2, true, true, nil, -1, []int{}}, {"a", -1, false, false, []zm{}, -1, []int{}}, {"A", 10, false, false, nil, -1, []int{}}, {"C", 11, true, false, nil, -1, []int{}}}, {}}},
	{func(null func(int) bool) interface{} {
		x := &Y8a{}
		if !null(0) {
			x.Y8b = &Y8b{}
		}
		if x.Y8b != nil && !null(1) {
			x.Y8b.y8c = &y8c{}
		}
		if x.Y8b != nil && x.Y8b.y8c != nil && !null(2) {
			x.Y8b.y8c.y8d = &y8d{}
		}
		if x.Y8b != nil && !null(3) {
			x.Y8b.Y8e.y8f = &y8f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y8a)
		l := make([]*int, 9)
		l[0] = &x.B
		if x.Y8b != nil {
			l[1] = &x.Y8b.B
		}
		if x.Y8b != nil && x.Y8b.y8c != nil && x.Y8b.y8c.y8d != nil {
			l[2] = &x.Y8b.y8c.y8d.C
		}
		if x.Y8b != nil && x.Y8b.y8c != nil {
			l[3] = &x.Y8b.y8c.C
		}
		if x.Y8b != nil {
			l[4] = &x.Y8b.a
		}
		if x.Y8b != nil && x.Y8b.Y8e.y8f != nil {
			l[5] = &x.Y8b.Y8e.y8f.A
		}
		if x.Y8b != nil {
			l[6] = &x.Y8b.Y8e.Ab
		}
		l[7] = &x.C
		l[8] = &x.Ab
		_ = x
		return l
	},
		[]bool{true, false, false, false}, [][]int{{}, {0}, {0, 1}, {0}},
		[4][]zm{{{"B", 0, false, false, nil, -1, []int{}}, {"c", -1, true, false, []zm{{"B", 2, false, false, nil, -1, []int{1, 2}}, {"é", 3, false, false, nil, -1, []int{1}}, {"A", 5, false, false, nil, -1, []int{3}}, {"Ab", 6, false, false, nil, -1, []int{}}}, 0, []int{}}, {"é", 7, false, false, nil, -1, []int{}}, {"Ab", 8, false, false, nil, -1, []int{}}}, {{"a", 0, false, false, nil, -1, []int{}}, {"d", 3, false, false, nil, -1, []int{0, 1}}, {"ab", 7, true, false, nil, -1, []int{}}, {"D", 8, false, false, nil, -1, []int{}}}, {{"c", -1, true, false, []zm{{"B", 2, false, false, nil, -1, []int{1, 2}}, {"é", 3, false, false, nil, -1, []int{1}}}, 0, []int{}}, {"é", 7, false, false, nil, -1, []int{}}, {"Ab", 8, false, false, nil, -1, []int{}}}, {{"a", 0, false, false, nil, -1, []int{}}, {"d", 3, false, false, nil, -1, []int{0, 1}}, {"ab", 7, true, false, nil, -1, []int{}}, {"D", 8, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y9a{}
		if !null(0) {
			x.Y9b.Y9c = &Y9c{}
		}
		if x.Y9b.Y9c != nil && !null(1) {
			x.Y9b.Y9c.y9d = &y9d{}
		}
		if !null(2) {
			x.Y9b.Y9e = &Y9e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y9a)
		l := make([]*int, 8)
		l[0] = &x.B
		if x.Y9b.Y9c != nil {
			l[1] = &x.Y9b.Y9c.A
		}
		if x.Y9b.Y9c != nil && x.Y9b.Y9c.y9d != nil {
			l[2] = &x.Y9b.Y9c.y9d.D
		}
		if x.Y9b.Y9c != nil && x.Y9b.Y9c.y9d != nil {
			l[3] = &x.Y9b.Y9c.y9d.C
		}
		if x.Y9b.Y9c != nil {
			l[4] = &x.Y9b.Y9c.D
		}
		if x.Y9b.Y9c != nil {
			l[5] = &x.Y9b.Y9c.C
		}
		if x.Y9b.Y9e != nil {
			l[6] = &x.Y9b.Y9e.a
		}
		if x.Y9b.Y9e != nil {
			l[7] = &x.Y9b.Y9e.Y9f.A
		}
		_ = x
		return l
	},
		[]bool{true, false, true}, [][]int{{}, {0}, {}},
		[4][]zm{{{"B", 0, false, false, nil, -1, []int{}}, {"A", 1, false, true, nil, -1, []int{0}}, {"a", 3, false, false, nil, -1, []int{0, 1}}, {"D", 4, false, false, nil, -1, []int{0}}, {"-", 5, false, false, nil, -1, []int{0}}, {"c", -1, true, false, []zm{{"b", 7, false, false, nil, -1, []int{}}}, 2, []int{}}}, {}, {{"A", 1, false, true, nil, -1, []int{0}}, {"a", 3, false, false, nil, -1, []int{0, 1}}, {"-", 5, false, false, nil, -1, []int{0}}, {"c", -1, true, false, []zm{{"b", 7, false, false, nil, -1, []int{}}}, 2, []int{}}}, {}}},
	{func(null func(int) bool) interface{} {
		x := &Y11a{}
		if !null(0) {
			x.y11b.Y11c = &Y11c{}
		}
		if x.y11b.Y11c != nil && !null(1) {
			x.y11b.Y11c.y11d = &y11d{}
		}
		if !null(2) {
			x.y11b.Y11g = &Y11g{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y11a)
		l := make([]*int, 16)
		l[0] = &x.Y11g.Ab
		l[1] = &x.Y11g.A
		l[2] = &x.Y11g.B
		l[3] = &x.y11b.A
		if x.y11b.Y11c != nil {
			l[4] = &x.y11b.Y11c.B
		}
		if x.y11b.Y11c != nil {
			l[5] = &x.y11b.Y11c.a
		}
		if x.y11b.Y11c != nil && x.y11b.Y11c.y11d != nil {
			l[6] = &x.y11b.Y11c.y11d.A
		}
		if x.y11b.Y11c != nil && x.y11b.Y11c.y11d != nil {
			l[7] = &x.y11b.Y11c.y11d.Ab
		}
		if x.y11b.Y11c != nil && x.y11b.Y11c.y11d != nil {
			l[8] = &x.y11b.Y11c.y11d.D
		}
		if x.y11b.Y11c != nil {
			l[9] = &x.y11b.Y11c.C
		}
		if x.y11b.Y11c != nil {
			l[10] = &x.y11b.Y11c.Y11e.A
		}
		l[11] = &x.y11b.Y11f.B
		if x.y11b.Y11g != nil {
			l[12] = &x.y11b.Y11g.Ab
		}
		if x.y11b.Y11g != nil {
			l[13] = &x.y11b.Y11g.A
		}
		if x.y11b.Y11g != nil {
			l[14] = &x.y11b.Y11g.B
		}
		l[15] = &x.D
		_ = x
		return l
	},
		[]bool{true, false, true}, [][]int{{}, {0}, {}},
		[4][]zm{{{"B", 1, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"B", 13, false, false, nil, -1, []int{2}}}, -1, []int{}}, {"D", 15, false, false, nil, -1, []int{}}}, {{"d", 3, false, true, nil, -1, []int{}}, {"B", 4, false, false, nil, -1, []int{0}}, {"A", 6, false, false, nil, -1, []int{0, 1}}, {"a", 11, false, false, nil, -1, []int{}}, {"b", 15, false, false, nil, -1, []int{}}}, {{"B", 1, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"B", 13, false, false, nil, -1, []int{2}}}, -1, []int{}}, {"D", 15, false, false, nil, -1, []int{}}}, {{"d", 3, false, true, nil, -1, []int{}}, {"a", 11, false, false, nil, -1, []int{}}, {"b", 15, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y12a{}
		if !null(0) {
			x.Y12b = &Y12b{}
		}
		if x.Y12b != nil && !null(1) {
			x.Y12b.Y12c.y12d = &y12d{}
		}
		if x.Y12b != nil && !null(2) {
			x.Y12b.Y12c.Y12e = &Y12e{}
		}
		if x.Y12b != nil && !null(3) {
			x.Y12b.Y12f = &Y12f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y12a)
		l := make([]*int, 11)
		if x.Y12b != nil {
			l[0] = &x.Y12b.B
		}
		if x.Y12b != nil {
			l[1] = &x.Y12b.C
		}
		if x.Y12b != nil {
			l[2] = &x.Y12b.Y12c.D
		}
		if x.Y12b != nil && x.Y12b.Y12c.y12d != nil {
			l[3] = &x.Y12b.Y12c.y12d.C
		}
		if x.Y12b != nil {
			l[4] = &x.Y12b.Y12c.Ab
		}
		if x.Y12b != nil && x.Y12b.Y12c.Y12e != nil {
			l[5] = &x.Y12b.Y12c.Y12e.A
		}
		if x.Y12b != nil && x.Y12b.Y12f != nil {
			l[6] = &x.Y12b.Y12f.Ab
		}
		if x.Y12b != nil && x.Y12b.Y12f != nil {
			l[7] = (*int)(&x.Y12b.Y12f.YN12)
		}
		if x.Y12b != nil && x.Y12b.Y12f != nil {
			l[8] = &x.Y12b.Y12f.D
		}
		if x.Y12b != nil {
			l[9] = &x.Y12b.A
		}
		l[10] = &x.C
		_ = x
		return l
	},
		[]bool{true, false, true, true}, [][]int{{}, {0}, {0}, {0}},
		[4][]zm{{{"B", 0, false, false, nil, -1, []int{0}}, {"é", 1, false, false, nil, -1, []int{0}}, {"D", 2, true, false, nil, -1, []int{0}}, {"-", 3, false, false, nil, -1, []int{0, 1}}, {"YN12", 7, false, false, nil, -1, []int{0, 3}}, {"A", 9, false, true, nil, -1, []int{0}}, {"c", 10, true, true, nil, -1, []int{}}}, {{"B", 0, false, false, nil, -1, []int{0}}, {"d", 1, false, true, nil, -1, []int{0}}, {"D", 2, false, false, nil, -1, []int{0}}, {"Ab", 4, false, false, nil, -1, []int{0}}, {"A", 5, false, false, nil, -1, []int{0, 2}}, {"a", -1, false, false, []zm{{"a", 6, false, false, nil, -1, []int{}}, {"ab", 7, true, false, nil, -1, []int{}}, {"D", 8, true, false, nil, -1, []int{}}}, 3, []int{0}}, {"b", 9, false, false, nil, -1, []int{0}}, {"C", 10, false, false, nil, -1, []int{}}}, {{"B", 0, false, false, nil, -1, []int{0}}, {"é", 1, false, false, nil, -1, []int{0}}, {"D", 2, true, false, nil, -1, []int{0}}, {"-", 3, false, false, nil, -1, []int{0, 1}}, {"YN12", 7, false, false, nil, -1, []int{0, 3}}, {"A", 9, false, true, nil, -1, []int{0}}, {"c", 10, true, true, nil, -1, []int{}}}, {{"d", 1, false, true, nil, -1, []int{0}}, {"a", -1, false, false, []zm{{"a", 6, false, false, nil, -1, []int{}}, {"ab", 7, true, false, nil, -1, []int{}}, {"D", 8, true, false, nil, -1, []int{}}}, 3, []int{0}}, {"b", 9, false, false, nil, -1, []int{0}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y13a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y13a)
		l := make([]*int, 6)
		l[0] = &x.B
		l[1] = &x.Ab
		l[2] = &x.C
		l[3] = (*int)(&x.Y13b.yn13)
		l[4] = &x.Y13b.A
		l[5] = &x.Y13b.Ab
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[4][]zm{{{"B", 0, false, false, nil, -1, []int{}}, {"A", 4, false, false, nil, -1, []int{}}, {"Ab", 5, true, false, nil, -1, []int{}}}, {{"B", 0, false, false, nil, -1, []int{}}, {"Ab", 1, false, false, nil, -1, []int{}}, {"C", 2, true, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"a", 4, false, false, nil, -1, []int{}}, {"ab", 5, true, false, nil, -1, []int{}}}, -1, []int{}}}, {{"A", 4, false, false, nil, -1, []int{}}, {"Ab", 5, true, false, nil, -1, []int{}}}, {{"C", 2, true, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"a", 4, false, false, nil, -1, []int{}}, {"ab", 5, true, false, nil, -1, []int{}}}, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y14a{}
		if !null(0) {
			x.Y14b.y14c = &y14c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y14a)
		l := make([]*int, 3)
		l[0] = &x.C
		l[1] = &x.A
		l[2] = &x.Y14b.D
		_ = x
		return l
	},
		[]bool{false}, [][]int{{}},
		[4][]zm{{{"C", 0, false, false, nil, -1, []int{}}, {"a<", 1, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"D", 2, false, false, nil, -1, []int{}}}, -1, []int{}}}, {{"d", 0, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{}, -1, []int{}}, {"A", 1, true, false, nil, -1, []int{}}, {"D", 2, false, false, nil, -1, []int{}}}, {{"C", 0, false, false, nil, -1, []int{}}, {"a<", 1, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{}, -1, []int{}}}, {{"d", 0, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{}, -1, []int{}}, {"A", 1, true, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y15a{}
		if !null(0) {
			x.Y15e.y15f = &y15f{}
		}
		if !null(1) {
			x.y15b = &y15b{}
		}
		if x.y15b != nil && !null(2) {
			x.y15b.Y15c.Y15d = &Y15d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y15a)
		l := make([]*int, 9)
		l[0] = &x.Ab
		if x.Y15e.y15f != nil {
			l[1] = &x.Y15e.y15f.D
		}
		if x.Y15e.y15f != nil {
			l[2] = &x.Y15e.y15f.Y15g.Ab
		}
		if x.Y15e.y15f != nil {
			l[3] = &x.Y15e.y15f.Y15g.D
		}
		l[4] = (*int)(&x.Y15e.YN15)
		if x.y15b != nil {
			l[5] = &x.y15b.a
		}
		if x.y15b != nil {
			l[6] = &x.y15b.Y15c.B
		}
		if x.y15b != nil && x.y15b.Y15c.Y15d != nil {
			l[7] = &x.y15b.Y15c.Y15d.C
		}
		if x.y15b != nil && x.y15b.Y15c.Y15d != nil {
			l[8] = &x.y15b.Y15c.Y15d.Ab
		}
		_ = x
		return l
	},
		[]bool{false, false, true}, [][]int{{}, {}, {1}},
		[4][]zm{{{"Ab", 0, false, false, nil, -1, []int{}}, {"D", 1, false, true, nil, -1, []int{0}}, {"b", 4, true, false, nil, -1, []int{}}, {"-", 6, false, false, nil, -1, []int{1}}, {"c", -1, true, false, []zm{}, 2, []int{1}}}, {{"D", 0, false, false, nil, -1, []int{}}, {"Ab", 2, false, false, nil, -1, []int{0}}, {"B", 6, false, false, nil, -1, []int{1}}, {"d", 8, false, true, nil, -1, []int{1, 2}}}, {{"Ab", 0, false, false, nil, -1, []int{}}, {"D", 1, false, true, nil, -1, []int{0}}, {"b", 4, true, false, nil, -1, []int{}}, {"-", 6, false, false, nil, -1, []int{1}}, {"c", -1, true, false, []zm{}, 2, []int{1}}}, {{"D", 0, false, false, nil, -1, []int{}}, {"d", 8, false, true, nil, -1, []int{1, 2}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y16a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y16a)
		l := make([]*int, 9)
		l[0] = &x.B
		l[1] = &x.C
		l[2] = &x.y16b.D
		l[3] = (*int)(&x.y16b.YN16)
		l[4] = &x.y16b.y16c.Ab
		l[5] = &x.y16b.y16c.A
		l[6] = &x.y16b.y16c.Y16d.A
		l[7] = (*int)(&x.y16b.y16c.Y16d.YN16)
		l[8] = &x.y16b.y16c.Y16d.D
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[4][]zm{{{"B", 0, false, true, nil, -1, []int{}}, {"a", 1, true, false, nil, -1, []int{}}, {"b", 2, false, true, nil, -1, []int{}}, {"c", 5, false, false, nil, -1, []int{}}, {"YN16", 7, false, false, nil, -1, []int{}}, {"D", 8, false, false, nil, -1, []int{}}}, {{"ab", 0, true, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"d", 2, false, false, nil, -1, []int{}}, {"a", 3, false, false, nil, -1, []int{}}, {"Ab", 4, false, false, nil, -1, []int{}}, {"b", 5, false, false, nil, -1, []int{}}, {"A", 6, false, false, nil, -1, []int{}}}, -1, []int{}}}, {{"B", 0, false, true, nil, -1, []int{}}, {"a", 1, true, false, nil, -1, []int{}}, {"b", 2, false, true, nil, -1, []int{}}, {"c", 5, false, false, nil, -1, []int{}}, {"YN16", 7, false, false, nil, -1, []int{}}, {"D", 8, false, false, nil, -1, []int{}}}, {{"ab", 0, true, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"d", 2, false, false, nil, -1, []int{}}, {"a", 3, false, false, nil, -1, []int{}}, {"b", 5, false, false, nil, -1, []int{}}}, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y17a{}
		if !null(0) {
			x.Y17g = &Y17g{}
		}
		if !null(1) {
			x.Y17b = &Y17b{}
		}
		if x.Y17b != nil && !null(2) {
			x.Y17b.y17c = &y17c{}
		}
		if x.Y17b != nil && x.Y17b.y17c != nil && !null(3) {
			x.Y17b.y17c.Y17d = &Y17d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y17a)
		l := make([]*int, 12)
		if x.Y17g != nil {
			l[0] = (*int)(&x.Y17g.yn17)
		}
		if x.Y17g != nil {
			l[1] = &x.Y17g.C
		}
		if x.Y17g != nil {
			l[2] = &x.Y17g.D
		}
		l[3] = &x.D
		if x.Y17b != nil && x.Y17b.y17c != nil {
			l[4] = &x.Y17b.y17c.y17f.C
		}
		if x.Y17b != nil && x.Y17b.y17c != nil {
			l[5] = (*int)(&x.Y17b.y17c.y17f.yn17)
		}
		if x.Y17b != nil && x.Y17b.y17c != nil && x.Y17b.y17c.Y17d != nil {
			l[6] = &x.Y17b.y17c.Y17d.a
		}
		if x.Y17b != nil && x.Y17b.y17c != nil && x.Y17b.y17c.Y17d != nil {
			l[7] = &x.Y17b.y17c.Y17d.B
		}
		if x.Y17b != nil && x.Y17b.y17c != nil && x.Y17b.y17c.Y17d != nil {
			l[8] = &x.Y17b.y17c.Y17d.A
		}
		if x.Y17b != nil && x.Y17b.y17c != nil && x.Y17b.y17c.Y17d != nil {
			l[9] = &x.Y17b.y17c.Y17d.Ab
		}
		l[10] = &x.Ab
		l[11] = &x.B
		_ = x
		return l
	},
		[]bool{true, true, false, true}, [][]int{{}, {}, {1}, {1, 2}},
		[4][]zm{{{"D", 3, false, false, nil, -1, []int{}}, {"Ab", 10, false, true, nil, -1, []int{}}, {"b", 11, false, true, nil, -1, []int{}}}, {{"D", 3, true, false, nil, -1, []int{}}, {"d", -1, false, false, []zm{{"ab", 7, true, false, nil, -1, []int{}}, {"b", 8, false, false, nil, -1, []int{}}}, 3, []int{1, 2}}, {"a", 10, false, false, nil, -1, []int{}}, {"B", 11, false, false, nil, -1, []int{}}}, {{"Ab", 10, false, true, nil, -1, []int{}}, {"b", 11, false, true, nil, -1, []int{}}}, {{"D", 3, true, false, nil, -1, []int{}}, {"d", -1, false, false, []zm{{"ab", 7, true, false, nil, -1, []int{}}, {"b", 8, false, false, nil, -1, []int{}}}, 3, []int{1, 2}}, {"a", 10, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y20a{}
		if !null(0) {
			x.y20b.y20c = &y20c{}
		}
		if !null(1) {
			x.y20b.Y20d = &Y20d{}
		}
		if x.y20b.Y20d != nil && !null(2) {
			x.y20b.Y20d.y20f = &y20f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y20a)
		l := make([]*int, 8)
		if x.y20b.Y20d != nil {
			l[0] = &x.y20b.Y20d.C
		}
		if x.y20b.Y20d != nil && x.y20b.Y20d.y20f != nil {
			l[1] = &x.y20b.Y20d.y20f.a
		}
		if x.y20b.Y20d != nil {
			l[2] = &x.y20b.Y20d.B
		}
		if x.y20b.Y20d != nil {
			l[3] = &x.y20b.Y20d.A
		}
		l[4] = &x.y20b.C
		l[5] = &x.C
		l[6] = &x.Ab
		l[7] = &x.A
		_ = x
		return l
	},
		[]bool{false, true, false}, [][]int{{}, {}, {1}},
		[4][]zm{{{"c", 0, true, true, nil, -1, []int{1}}, {"a", 2, true, false, nil, -1, []int{1}}, {"A", 3, false, false, nil, -1, []int{1}}, {"b", 5, false, false, nil, -1, []int{}}, {"ab", 6, false, false, nil, -1, []int{}}}, {{"B", 2, false, false, nil, -1, []int{1}}, {"b", 4, false, false, nil, -1, []int{}}, {"ab", 6, true, false, nil, -1, []int{}}, {"A", 7, false, false, nil, -1, []int{}}}, {{"c", 0, true, true, nil, -1, []int{1}}, {"a", 2, true, false, nil, -1, []int{1}}, {"b", 5, false, false, nil, -1, []int{}}, {"ab", 6, false, false, nil, -1, []int{}}}, {{"b", 4, false, false, nil, -1, []int{}}, {"ab", 6, true, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y21a{}
		if !null(0) {
			x.Y21b = &Y21b{}
		}
		if x.Y21b != nil && !null(1) {
			x.Y21b.Y21c = &Y21c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y21a)
		l := make([]*int, 7)
		l[0] = &x.B
		if x.Y21b != nil {
			l[1] = &x.Y21b.B
		}
		if x.Y21b != nil && x.Y21b.Y21c != nil {
			l[2] = &x.Y21b.Y21c.y21e.D
		}
		if x.Y21b != nil && x.Y21b.Y21c != nil {
			l[3] = &x.Y21b.Y21c.y21e.A
		}
		if x.Y21b != nil && x.Y21b.Y21c != nil {
			l[4] = (*int)(&x.Y21b.Y21c.yn21)
		}
		if x.Y21b != nil && x.Y21b.Y21c != nil {
			l[5] = &x.Y21b.Y21c.A
		}
		if x.Y21b != nil && x.Y21b.Y21c != nil {
			l[6] = &x.Y21b.Y21c.Y21d.A
		}
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {0}},
		[4][]zm{{{"B", 0, true, false, nil, -1, []int{}}, {"c", -1, true, false, []zm{{"B", 1, true, false, nil, -1, []int{}}, {"A", 5, false, false, nil, -1, []int{1}}}, 0, []int{}}}, {{"d", 0, false, false, nil, -1, []int{}}, {"b", 1, false, false, nil, -1, []int{0}}, {"D", 2, false, false, nil, -1, []int{0, 1}}, {"A", 3, false, false, nil, -1, []int{0, 1}}, {"ab", 5, true, false, nil, -1, []int{0, 1}}, {"a", 6, false, false, nil, -1, []int{0, 1}}}, {{"B", 0, true, false, nil, -1, []int{}}, {"c", -1, true, false, []zm{{"B", 1, true, false, nil, -1, []int{}}}, 0, []int{}}}, {{"d", 0, false, false, nil, -1, []int{}}, {"b", 1, false, false, nil, -1, []int{0}}, {"D", 2, false, false, nil, -1, []int{0, 1}}, {"ab", 5, true, false, nil, -1, []int{0, 1}}, {"a", 6, false, false, nil, -1, []int{0, 1}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y22a{}
		if !null(0) {
			x.Y22b.Y22c = &Y22c{}
		}
		if x.Y22b.Y22c != nil && !null(1) {
			x.Y22b.Y22c.y22e = &y22e{}
		}
		if !null(2) {
			x.Y22f = &Y22f{}
		}
		if x.Y22f != nil && !null(3) {
			x.Y22f.Y22c.y22e = &y22e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y22a)
		l := make([]*int, 14)
		l[0] = &x.a
		if x.Y22b.Y22c != nil {
			l[1] = &x.Y22b.Y22c.Y22d.C
		}
		if x.Y22b.Y22c != nil {
			l[2] = &x.Y22b.Y22c.Y22d.A
		}
		if x.Y22b.Y22c != nil {
			l[3] = &x.Y22b.Y22c.Y22d.a
		}
		if x.Y22b.Y22c != nil && x.Y22b.Y22c.y22e != nil {
			l[4] = &x.Y22b.Y22c.y22e.Ab
		}
		if x.Y22b.Y22c != nil && x.Y22b.Y22c.y22e != nil {
			l[5] = &x.Y22b.Y22c.y22e.B
		}
		l[6] = &x.A
		if x.Y22f != nil {
			l[7] = &x.Y22f.Y22c.Y22d.C
		}
		if x.Y22f != nil {
			l[8] = &x.Y22f.Y22c.Y22d.A
		}
		if x.Y22f != nil {
			l[9] = &x.Y22f.Y22c.Y22d.a
		}
		if x.Y22f != nil && x.Y22f.Y22c.y22e != nil {
			l[10] = &x.Y22f.Y22c.y22e.Ab
		}
		if x.Y22f != nil && x.Y22f.Y22c.y22e != nil {
			l[11] = &x.Y22f.Y22c.y22e.B
		}
		if x.Y22f != nil {
			l[12] = (*int)(&x.Y22f.YN22)
		}
		if x.Y22f != nil {
			l[13] = &x.Y22f.y22g.B
		}
		_ = x
		return l
	},
		[]bool{true, false, true, false}, [][]int{{}, {0}, {}, {2}},
		[4][]zm{{{"a<", 1, false, false, nil, -1, []int{0}}, {"-", 5, true, false, nil, -1, []int{0, 1}}, {"a", 6, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"a<", 7, false, false, nil, -1, []int{}}, {"c", 8, false, false, nil, -1, []int{}}, {"a", 10, true, false, nil, -1, []int{3}}, {"-", 11, true, false, nil, -1, []int{3}}}, -1, []int{2}}, {"b", 12, true, false, nil, -1, []int{2}}}, {{"C", 1, true, false, nil, -1, []int{0}}, {"A", 2, false, false, nil, -1, []int{0}}, {"Ab", 4, false, false, nil, -1, []int{0, 1}}, {"b", 5, false, false, nil, -1, []int{0, 1}}, {"a", 6, false, false, nil, -1, []int{}}, {"d", -1, false, false, []zm{{"YN22", 12, true, false, nil, -1, []int{}}}, 2, []int{}}}, {{"a<", 1, false, false, nil, -1, []int{0}}, {"-", 5, true, false, nil, -1, []int{0, 1}}, {"a", 6, false, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"a<", 7, false, false, nil, -1, []int{}}, {"c", 8, false, false, nil, -1, []int{}}, {"a", 10, true, false, nil, -1, []int{3}}, {"-", 11, true, false, nil, -1, []int{3}}}, -1, []int{2}}, {"b", 12, true, false, nil, -1, []int{2}}}, {{"C", 1, true, false, nil, -1, []int{0}}, {"b", 5, false, false, nil, -1, []int{0, 1}}, {"a", 6, false, false, nil, -1, []int{}}, {"d", -1, false, false, []zm{{"YN22", 12, true, false, nil, -1, []int{}}}, 2, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y24a{}
		if !null(0) {
			x.Y24e = &Y24e{}
		}
		if !null(1) {
			x.y24b = &y24b{}
		}
		if x.y24b != nil && !null(2) {
			x.y24b.Y24c = &Y24c{}
		}
		if x.y24b != nil && x.y24b.Y24c != nil && !null(3) {
			x.y24b.Y24c.Y24d = &Y24d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y24a)
		l := make([]*int, 10)
		l[0] = &x.A
		if x.Y24e != nil {
			l[1] = &x.Y24e.C
		}
		if x.Y24e != nil {
			l[2] = &x.Y24e.D
		}
		if x.Y24e != nil {
			l[3] = &x.Y24e.Y24f.Y24g.B
		}
		if x.Y24e != nil {
			l[4] = &x.Y24e.Y24f.C
		}
		if x.Y24e != nil {
			l[5] = &x.Y24e.Y24f.Ab
		}
		if x.y24b != nil && x.y24b.Y24c != nil && x.y24b.Y24c.Y24d != nil {
			l[6] = &x.y24b.Y24c.Y24d.a
		}
		if x.y24b != nil && x.y24b.Y24c != nil {
			l[7] = &x.y24b.Y24c.A
		}
		if x.y24b != nil && x.y24b.Y24c != nil {
			l[8] = &x.y24b.Y24c.D
		}
		l[9] = &x.C
		_ = x
		return l
	},
		[]bool{true, false, true, true}, [][]int{{}, {}, {1}, {1, 2}},
		[4][]zm{{{"D", 2, false, false, nil, -1, []int{0}}, {"c", -1, false, false, []zm{{"C", 4, false, false, nil, -1, []int{}}, {"B", 5, false, false, nil, -1, []int{}}}, -1, []int{0}}, {"a", 7, true, false, nil, -1, []int{1, 2}}, {"A", 8, false, false, nil, -1, []int{1, 2}}, {"C", 9, false, true, nil, -1, []int{}}}, {{"A", 0, true, false, nil, -1, []int{}}, {"d", -1, false, false, []zm{{"ab", 2, true, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"d", 3, false, true, nil, -1, []int{}}, {"a", 4, false, false, nil, -1, []int{}}, {"ab", 5, true, false, nil, -1, []int{}}}, -1, []int{}}}, 0, []int{}}, {"D", 7, false, false, nil, -1, []int{1, 2}}}, {{"c", -1, false, false, []zm{{"B", 5, false, false, nil, -1, []int{}}}, -1, []int{0}}, {"a", 7, true, false, nil, -1, []int{1, 2}}, {"A", 8, false, false, nil, -1, []int{1, 2}}, {"C", 9, false, true, nil, -1, []int{}}}, {{"A", 0, true, false, nil, -1, []int{}}, {"d", -1, false, false, []zm{{"ab", 2, true, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"d", 3, false, true, nil, -1, []int{}}, {"a", 4, false, false, nil, -1, []int{}}, {"ab", 5, true, false, nil, -1, []int{}}}, -1, []int{}}}, 0, []int{}}, {"D", 7, false, false, nil, -1, []int{1, 2}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y25a{}
		if !null(0) {
			x.Y25b.y25c.y25d = &y25d{}
		}
		if !null(1) {
			x.Y25b.Y25e = &Y25e{}
		}
		if x.Y25b.Y25e != nil && !null(2) {
			x.Y25b.Y25e.y25f = &y25f{}
		}
		if x.Y25b.Y25e != nil && !null(3) {
			x.Y25b.Y25e.Y25g = &Y25g{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y25a)
		l := make([]*int, 14)
		l[0] = &x.A
		l[1] = &x.Y25h.C
		l[2] = &x.Y25h.B
		l[3] = &x.D
		l[4] = &x.C
		l[5] = &x.a
		l[6] = (*int)(&x.YN25)
		l[7] = &x.Y25b.A
		if x.Y25b.y25c.y25d != nil {
			l[8] = &x.Y25b.y25c.y25d.A
		}
		if x.Y25b.y25c.y25d != nil {
			l[9] = &x.Y25b.y25c.y25d.Ab
		}
		if x.Y25b.Y25e != nil && x.Y25b.Y25e.Y25g != nil {
			l[10] = &x.Y25b.Y25e.Y25g.D
		}
		if x.Y25b.Y25e != nil && x.Y25b.Y25e.Y25g != nil {
			l[11] = &x.Y25b.Y25e.Y25g.C
		}
		if x.Y25b.Y25e != nil {
			l[12] = &x.Y25b.Y25e.D
		}
		l[13] = &x.Y25b.C
		_ = x
		return l
	},
		[]bool{false, true, false, true}, [][]int{{}, {}, {1}, {1}},
		[4][]zm{{{"A", 0, false, false, nil, -1, []int{}}, {"C", 1, true, false, nil, -1, []int{}}, {"B", 2, false, false, nil, -1, []int{}}, {"c", 3, true, true, nil, -1, []int{}}, {"a<", 4, false, false, nil, -1, []int{}}}, {{"D", 0, false, false, nil, -1, []int{}}, {"A", 8, true, false, nil, -1, []int{0}}, {"Ab", 9, true, false, nil, -1, []int{0}}, {"b", 10, false, false, nil, -1, []int{1, 3}}, {"C", 11, true, false, nil, -1, []int{1, 3}}}, {{"C", 1, true, false, nil, -1, []int{}}, {"c", 3, true, true, nil, -1, []int{}}, {"a<", 4, false, false, nil, -1, []int{}}}, {{"D", 0, false, false, nil, -1, []int{}}, {"A", 8, true, false, nil, -1, []int{0}}, {"Ab", 9, true, false, nil, -1, []int{0}}, {"b", 10, false, false, nil, -1, []int{1, 3}}, {"C", 11, true, false, nil, -1, []int{1, 3}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y26a{}
		if !null(0) {
			x.y26b = &y26b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y26a)
		l := make([]*int, 3)
		if x.y26b != nil {
			l[0] = &x.y26b.A
		}
		if x.y26b != nil {
			l[1] = &x.y26b.D
		}
		l[2] = &x.A
		_ = x
		return l
	},
		[]bool{false}, [][]int{{}},
		[4][]zm{{{"a", 0, true, false, nil, -1, []int{0}}, {"D", 1, false, false, nil, -1, []int{0}}, {"a<", 2, false, false, nil, -1, []int{}}}, {{"d", 0, false, true, nil, -1, []int{0}}, {"b", 1, false, false, nil, -1, []int{0}}, {"A", 2, false, false, nil, -1, []int{}}}, {{"a", 0, true, false, nil, -1, []int{0}}, {"D", 1, false, false, nil, -1, []int{0}}, {"a<", 2, false, false, nil, -1, []int{}}}, {{"d", 0, false, true, nil, -1, []int{0}}, {"b", 1, false, false, nil, -1, []int{0}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y27a{}
		if !null(0) {
			x.Y27b = &Y27b{}
		}
		if x.Y27b != nil && !null(1) {
			x.Y27b.Y27c.Y27e = &Y27e{}
		}
		if x.Y27b != nil && !null(2) {
			x.Y27b.Y27c.Y27d = &Y27d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y27a)
		l := make([]*int, 8)
		if x.Y27b != nil {
			l[0] = &x.Y27b.B
		}
		if x.Y27b != nil {
			l[1] = &x.Y27b.C
		}
		if x.Y27b != nil {
			l[2] = &x.Y27b.D
		}
		if x.Y27b != nil && x.Y27b.Y27c.Y27e != nil {
			l[3] = &x.Y27b.Y27c.Y27e.D
		}
		if x.Y27b != nil && x.Y27b.Y27c.Y27d != nil {
			l[4] = &x.Y27b.Y27c.Y27d.D
		}
		if x.Y27b != nil && x.Y27b.Y27c.Y27d != nil {
			l[5] = &x.Y27b.Y27c.Y27d.Ab
		}
		if x.Y27b != nil && x.Y27b.Y27c.Y27d != nil {
			l[6] = &x.Y27b.Y27c.Y27d.B
		}
		l[7] = &x.A
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {0}, {0}},
		[4][]zm{{{"-", 0, false, false, nil, -1, []int{0}}, {"C", 1, false, false, nil, -1, []int{0}}, {"D", 2, true, false, nil, -1, []int{0}}, {"a", -1, false, false, []zm{{"a", -1, false, false, []zm{{"é", 3, false, false, nil, -1, []int{}}}, 1, []int{}}, {"a<", 4, false, false, nil, -1, []int{2}}, {"c", 5, true, true, nil, -1, []int{2}}, {"B", 6, false, false, nil, -1, []int{2}}}, -1, []int{0}}, {"A", 7, false, false, nil, -1, []int{}}}, {}, {{"-", 0, false, false, nil, -1, []int{0}}, {"D", 2, true, false, nil, -1, []int{0}}, {"a", -1, false, false, []zm{{"a", -1, false, false, []zm{{"é", 3, false, false, nil, -1, []int{}}}, 1, []int{}}, {"a<", 4, false, false, nil, -1, []int{2}}, {"c", 5, true, true, nil, -1, []int{2}}}, -1, []int{0}}}, {}}},
	{func(null func(int) bool) interface{} {
		x := &Y28a{}
		if !null(0) {
			x.Y28b = &Y28b{}
		}
		if x.Y28b != nil && !null(1) {
			x.Y28b.y28c = &y28c{}
		}
		if x.Y28b != nil && x.Y28b.y28c != nil && !null(2) {
			x.Y28b.y28c.Y28d = &Y28d{}
		}
		if !null(3) {
			x.Y28e.Y28f = &Y28f{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y28a)
		l := make([]*int, 14)
		l[0] = &x.C
		if x.Y28b != nil {
			l[1] = &x.Y28b.C
		}
		if x.Y28b != nil && x.Y28b.y28c != nil {
			l[2] = &x.Y28b.y28c.Ab
		}
		if x.Y28b != nil && x.Y28b.y28c != nil && x.Y28b.y28c.Y28d != nil {
			l[3] = &x.Y28b.y28c.Y28d.C
		}
		if x.Y28b != nil && x.Y28b.y28c != nil {
			l[4] = &x.Y28b.y28c.A
		}
		if x.Y28b != nil {
			l[5] = &x.Y28b.B
		}
		l[6] = &x.Ab
		l[7] = (*int)(&x.Y28e.YN28)
		l[8] = &x.Y28e.Y28h.C
		l[9] = &x.Y28e.Y28h.a
		l[10] = &x.Y28e.Y28h.D
		if x.Y28e.Y28f != nil {
			l[11] = &x.Y28e.Y28f.Ab
		}
		if x.Y28e.Y28f != nil {
			l[12] = &x.Y28e.Y28f.y28g.C
		}
		if x.Y28e.Y28f != nil {
			l[13] = &x.Y28e.Y28f.y28g.A
		}
		_ = x
		return l
	},
		[]bool{true, false, true, true}, [][]int{{}, {0}, {0, 1}, {}},
		[4][]zm{{{"C", 0, false, false, nil, -1, []int{}}, {"c", -1, true, false, []zm{{"a", 1, false, false, nil, -1, []int{}}, {"B", 5, false, false, nil, -1, []int{}}}, 0, []int{}}, {"a", 6, false, false, nil, -1, []int{}}}, {{"d", 0, false, true, nil, -1, []int{}}, {"Ab", 2, false, false, nil, -1, []int{0, 1}}, {"C", 3, false, false, nil, -1, []int{0, 1, 2}}, {"D", 5, false, false, nil, -1, []int{0}}, {"ab", 6, true, false, nil, -1, []int{}}, {"YN28", 7, false, false, nil, -1, []int{}}}, {{"c", -1, true, false, []zm{{"a", 1, false, false, nil, -1, []int{}}, {"B", 4, false, false, nil, -1, []int{1}}}, 0, []int{}}, {"a", 6, false, false, nil, -1, []int{}}}, {{"d", 0, false, true, nil, -1, []int{}}, {"D", 5, false, false, nil, -1, []int{0}}, {"ab", 6, true, false, nil, -1, []int{}}, {"YN28", 7, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y30a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y30a)
		l := make([]*int, 3)
		l[0] = &x.Y30b.C
		l[1] = &x.C
		l[2] = &x.Ab
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[4][]zm{{{"c", 0, false, false, nil, -1, []int{}}, {"a<", 1, false, false, nil, -1, []int{}}, {"Ab", 2, false, false, nil, -1, []int{}}}, {{"ab", 1, true, false, nil, -1, []int{}}}, {{"c", 0, false, false, nil, -1, []int{}}, {"a<", 1, false, false, nil, -1, []int{}}}, {{"ab", 1, true, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y31a{}
		if !null(0) {
			x.y31b.y31c = &y31c{}
		}
		if !null(1) {
			x.y31b.y31e.Y31d = &Y31d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y31a)
		l := make([]*int, 12)
		l[0] = &x.Y31f.y31g.Ab
		l[1] = &x.Y31f.y31g.B
		l[2] = &x.Y31f.Y31h.D
		l[3] = &x.Y31f.D
		if x.y31b.y31c != nil {
			l[4] = &x.y31b.y31c.B
		}
		if x.y31b.y31c != nil {
			l[5] = &x.y31b.y31c.a
		}
		if x.y31b.y31c != nil {
			l[6] = &x.y31b.y31c.D
		}
		l[7] = &x.y31b.y31e.A
		l[8] = &x.y31b.y31e.B
		l[9] = &x.y31b.C
		l[10] = &x.y31b.Ab
		l[11] = &x.B
		_ = x
		return l
	},
		[]bool{false, true}, [][]int{{}, {}},
		[4][]zm{{{"D", 3, false, false, nil, -1, []int{}}, {"é", 4, false, false, nil, -1, []int{0}}, {"Ab", 10, false, false, nil, -1, []int{}}, {"ab", 11, false, false, nil, -1, []int{}}}, {{"Ab", 0, false, false, nil, -1, []int{}}, {"b", 6, false, false, nil, -1, []int{0}}, {"A", 7, false, false, nil, -1, []int{}}, {"d", 9, false, true, nil, -1, []int{}}, {"B", 11, false, false, nil, -1, []int{}}}, {{"é", 4, false, false, nil, -1, []int{0}}, {"ab", 11, false, false, nil, -1, []int{}}}, {{"b", 6, false, false, nil, -1, []int{0}}, {"d", 9, false, true, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y33a{}
		if !null(0) {
			x.y33d = &y33d{}
		}
		if x.y33d != nil && !null(1) {
			x.y33d.Y33e = &Y33e{}
		}
		if !null(2) {
			x.Y33b.Y33c = &Y33c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y33a)
		l := make([]*int, 11)
		if x.y33d != nil && x.y33d.Y33e != nil {
			l[0] = &x.y33d.Y33e.A
		}
		if x.y33d != nil && x.y33d.Y33e != nil {
			l[1] = &x.y33d.Y33e.D
		}
		if x.y33d != nil {
			l[2] = &x.y33d.A
		}
		if x.Y33b.Y33c != nil {
			l[3] = &x.Y33b.Y33c.a
		}
		if x.Y33b.Y33c != nil {
			l[4] = (*int)(&x.Y33b.Y33c.YN33)
		}
		l[5] = &x.Y33b.Ab
		l[6] = &x.Y33b.A
		l[7] = &x.Y33b.a
		l[8] = &x.Y33c.a
		l[9] = (*int)(&x.Y33c.YN33)
		l[10] = &x.Ab
		_ = x
		return l
	},
		[]bool{false, true, true}, [][]int{{}, {0}, {}},
		[4][]zm{{{"b", 0, false, true, nil, -1, []int{0, 1}}, {"D", 1, false, false, nil, -1, []int{0, 1}}, {"A", 2, true, false, nil, -1, []int{0}}, {"c", 5, false, false, nil, -1, []int{}}, {"YN33", 9, false, false, nil, -1, []int{}}, {"Ab", 10, true, false, nil, -1, []int{}}}, {{"b", 0, false, false, nil, -1, []int{0, 1}}, {"a", 10, false, false, nil, -1, []int{}}}, {{"b", 0, false, true, nil, -1, []int{0, 1}}, {"A", 2, true, false, nil, -1, []int{0}}, {"c", 5, false, false, nil, -1, []int{}}, {"YN33", 9, false, false, nil, -1, []int{}}, {"Ab", 10, true, false, nil, -1, []int{}}}, {{"b", 0, false, false, nil, -1, []int{0, 1}}, {"a", 10, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y34a{}
		if !null(0) {
			x.y34b = &y34b{}
		}
		if x.y34b != nil && !null(1) {
			x.y34b.Y34c = &Y34c{}
		}
		if x.y34b != nil && x.y34b.Y34c != nil && !null(2) {
			x.y34b.Y34c.y34d = &y34d{}
		}
		if !null(3) {
			x.Y34e.Y34c.y34d = &y34d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y34a)
		l := make([]*int, 13)
		l[0] = &x.a
		l[1] = (*int)(&x.YN34)
		l[2] = &x.D
		if x.y34b != nil {
			l[3] = &x.y34b.D
		}
		if x.y34b != nil {
			l[4] = &x.y34b.y34d.a
		}
		if x.y34b != nil && x.y34b.Y34c != nil {
			l[5] = &x.y34b.Y34c.A
		}
		if x.y34b != nil && x.y34b.Y34c != nil && x.y34b.Y34c.y34d != nil {
			l[6] = &x.y34b.Y34c.y34d.a
		}
		if x.y34b != nil && x.y34b.Y34c != nil {
			l[7] = &x.y34b.Y34c.Ab
		}
		l[8] = &x.Y34e.Y34c.A
		if x.Y34e.Y34c.y34d != nil {
			l[9] = &x.Y34e.Y34c.y34d.a
		}
		l[10] = &x.Y34e.Y34c.Ab
		l[11] = &x.Y34e.D
		l[12] = &x.Y34e.A
		_ = x
		return l
	},
		[]bool{false, true, false, false}, [][]int{{}, {0}, {0, 1}, {}},
		[4][]zm{{{"b", 1, true, false, nil, -1, []int{}}, {"c", 2, false, false, nil, -1, []int{}}, {"a", 3, true, false, nil, -1, []int{0}}, {"-", 10, true, false, nil, -1, []int{}}, {"B", 11, false, false, nil, -1, []int{}}, {"A", 12, true, false, nil, -1, []int{}}}, {{"ab", 1, true, false, nil, -1, []int{}}, {"D", 2, false, false, nil, -1, []int{}}, {"b", 11, false, false, nil, -1, []int{}}}, {{"b", 1, true, false, nil, -1, []int{}}, {"c", 2, false, false, nil, -1, []int{}}, {"a", 3, true, false, nil, -1, []int{0}}, {"-", 10, true, false, nil, -1, []int{}}, {"B", 11, false, false, nil, -1, []int{}}, {"A", 12, true, false, nil, -1, []int{}}}, {{"ab", 1, true, false, nil, -1, []int{}}, {"D", 2, false, false, nil, -1, []int{}}, {"b", 11, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y35a{}
		if !null(0) {
			x.Y35b = &Y35b{}
		}
		if x.Y35b != nil && !null(1) {
			x.Y35b.y35c.Y35e = &Y35e{}
		}
		if x.Y35b != nil && !null(2) {
			x.Y35b.Y35f.y35g = &y35g{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y35a)
		l := make([]*int, 9)
		l[0] = &x.B
		if x.Y35b != nil {
			l[1] = &x.Y35b.y35c.Y35d.B
		}
		if x.Y35b != nil {
			l[2] = &x.Y35b.y35c.Y35d.A
		}
		if x.Y35b != nil {
			l[3] = &x.Y35b.y35c.Y35d.C
		}
		if x.Y35b != nil && x.Y35b.y35c.Y35e != nil {
			l[4] = &x.Y35b.y35c.Y35e.A
		}
		if x.Y35b != nil && x.Y35b.y35c.Y35e != nil {
			l[5] = &x.Y35b.y35c.Y35e.D
		}
		if x.Y35b != nil {
			l[6] = &x.Y35b.y35c.B
		}
		if x.Y35b != nil {
			l[7] = &x.Y35b.y35c.A
		}
		if x.Y35b != nil && x.Y35b.Y35f.y35g != nil {
			l[8] = (*int)(&x.Y35b.Y35f.y35g.yn35)
		}
		_ = x
		return l
	},
		[]bool{true, true, false}, [][]int{{}, {0}, {0}},
		[4][]zm{{{"B", 0, false, false, nil, -1, []int{}}, {"A", 5, false, false, nil, -1, []int{0, 1}}, {"c", 7, true, true, nil, -1, []int{0}}}, {{"d", 0, false, true, nil, -1, []int{}}, {"D", 3, false, false, nil, -1, []int{0}}, {"a", 6, false, false, nil, -1, []int{0}}, {"A", 7, false, false, nil, -1, []int{0}}}, {{"A", 5, false, false, nil, -1, []int{0, 1}}, {"B", 6, false, true, nil, -1, []int{0}}, {"c", 7, true, true, nil, -1, []int{0}}}, {{"d", 0, false, true, nil, -1, []int{}}, {"A", 2, true, false, nil, -1, []int{0}}, {"D", 3, false, false, nil, -1, []int{0}}, {"a", 6, false, false, nil, -1, []int{0}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y39a{}
		if !null(0) {
			x.Y39b = &Y39b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y39a)
		l := make([]*int, 6)
		l[0] = &x.D
		l[1] = &x.a
		if x.Y39b != nil {
			l[2] = &x.Y39b.D
		}
		if x.Y39b != nil {
			l[3] = &x.Y39b.C
		}
		if x.Y39b != nil {
			l[4] = &x.Y39b.Ab
		}
		l[5] = &x.C
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[4][]zm{{{"-", 0, false, false, nil, -1, []int{}}, {"é", 2, false, false, nil, -1, []int{0}}, {"c", 3, true, true, nil, -1, []int{0}}, {"a", 4, true, false, nil, -1, []int{0}}, {"C", 5, false, false, nil, -1, []int{}}}, {{"D", 0, false, false, nil, -1, []int{}}, {"a", 2, false, false, nil, -1, []int{0}}, {"ab", 3, true, false, nil, -1, []int{0}}, {"Ab", 4, true, false, nil, -1, []int{0}}}, {{"-", 0, false, false, nil, -1, []int{}}, {"é", 2, false, false, nil, -1, []int{0}}, {"c", 3, true, true, nil, -1, []int{0}}, {"a", 4, true, false, nil, -1, []int{0}}, {"C", 5, false, false, nil, -1, []int{}}}, {{"a", 2, false, false, nil, -1, []int{0}}, {"ab", 3, true, false, nil, -1, []int{0}}, {"Ab", 4, true, false, nil, -1, []int{0}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y41a{}
		if !null(0) {
			x.Y41b = &Y41b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y41a)
		l := make([]*int, 5)
		if x.Y41b != nil {
			l[0] = &x.Y41b.A
		}
		if x.Y41b != nil {
			l[1] = &x.Y41b.B
		}
		if x.Y41b != nil {
			l[2] = &x.Y41b.Ab
		}
		l[3] = &x.C
		l[4] = &x.B
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[4][]zm{{{"A", 0, false, false, nil, -1, []int{0}}, {"a", 2, false, false, nil, -1, []int{0}}, {"C", 3, true, false, nil, -1, []int{}}, {"b", 4, false, false, nil, -1, []int{}}}, {{"A", 0, true, false, nil, -1, []int{0}}, {"D", 2, false, false, nil, -1, []int{0}}, {"d", 3, false, true, nil, -1, []int{}}, {"B", 4, false, false, nil, -1, []int{}}}, {{"A", 0, false, false, nil, -1, []int{0}}, {"a", 2, false, false, nil, -1, []int{0}}, {"C", 3, true, false, nil, -1, []int{}}, {"b", 4, false, false, nil, -1, []int{}}}, {{"A", 0, true, false, nil, -1, []int{0}}, {"B", 1, true, false, nil, -1, []int{0}}, {"D", 2, false, false, nil, -1, []int{0}}, {"d", 3, false, true, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y43a{}
		if !null(0) {
			x.Y43g = &Y43g{}
		}
		if !null(1) {
			x.Y43b.y43c.y43e = &y43e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y43a)
		l := make([]*int, 8)
		l[0] = &x.Ab
		if x.Y43g != nil {
			l[1] = &x.Y43g.D
		}
		if x.Y43g != nil {
			l[2] = &x.Y43g.A
		}
		l[3] = &x.B
		l[4] = &x.Y43h.C
		l[5] = &x.Y43b.A
		l[6] = &x.Y43b.Ab
		l[7] = &x.Y43b.y43c.y43d.B
		_ = x
		return l
	},
		[]bool{true, false}, [][]int{{}, {}},
		[4][]zm{{{"Ab", 0, true, false, nil, -1, []int{}}, {"b", 1, false, true, nil, -1, []int{0}}, {"A", 2, true, false, nil, -1, []int{0}}, {"B", 4, false, false, nil, -1, []int{}}}, {{"b", 0, false, false, nil, -1, []int{}}, {"d", 1, false, false, nil, -1, []int{0}}, {"a", 2, false, false, nil, -1, []int{0}}, {"B", 3, false, false, nil, -1, []int{}}, {"C", 4, false, false, nil, -1, []int{}}, {"A", 5, true, false, nil, -1, []int{}}, {"Ab", 6, false, false, nil, -1, []int{}}}, {{"Ab", 0, true, false, nil, -1, []int{}}, {"b", 1, false, true, nil, -1, []int{0}}, {"A", 2, true, false, nil, -1, []int{0}}, {"B", 4, false, false, nil, -1, []int{}}}, {{"b", 0, false, false, nil, -1, []int{}}, {"d", 1, false, false, nil, -1, []int{0}}, {"a", 2, false, false, nil, -1, []int{0}}, {"A", 5, true, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y45a{}
		if !null(0) {
			x.Y45b = &Y45b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y45a)
		l := make([]*int, 9)
		l[0] = &x.B
		l[1] = &x.C
		l[2] = &x.A
		if x.Y45b != nil {
			l[3] = &x.Y45b.y45c.A
		}
		if x.Y45b != nil {
			l[4] = &x.Y45b.y45c.Y45d.C
		}
		if x.Y45b != nil {
			l[5] = &x.Y45b.y45c.Ab
		}
		if x.Y45b != nil {
			l[6] = &x.Y45b.y45c.D
		}
		if x.Y45b != nil {
			l[7] = &x.Y45b.C
		}
		if x.Y45b != nil {
			l[8] = &x.Y45b.A
		}
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[4][]zm{{{"B", 0, false, false, nil, -1, []int{}}, {"C", 1, false, false, nil, -1, []int{}}, {"-", 2, false, false, nil, -1, []int{}}, {"Ab", 5, false, false, nil, -1, []int{0}}, {"D", 6, false, false, nil, -1, []int{0}}, {"c", 7, false, false, nil, -1, []int{0}}, {"A", 8, false, false, nil, -1, []int{0}}}, {{"a", 0, false, false, nil, -1, []int{}}, {"ab", 1, true, false, nil, -1, []int{}}}, {{"-", 2, false, false, nil, -1, []int{}}, {"c", 7, false, false, nil, -1, []int{0}}}, {{"a", 0, false, false, nil, -1, []int{}}, {"ab", 1, true, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y46a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y46a)
		l := make([]*int, 14)
		l[0] = &x.Y46c.Ab
		l[1] = &x.Y46c.Y46d.D
		l[2] = &x.Y46c.Y46d.B
		l[3] = &x.Y46c.Y46d.Y46e.Ab
		l[4] = &x.Y46c.Y46d.Y46e.B
		l[5] = &x.Y46c.a
		l[6] = &x.Y46c.A
		l[7] = (*int)(&x.Y46c.YN46)
		l[8] = &x.Y46c.C
		l[9] = &x.A
		l[10] = &x.C
		l[11] = &x.Y46b.C
		l[12] = &x.Y46b.Ab
		l[13] = &x.a
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[4][]zm{{{"Ab", 0, false, false, nil, -1, []int{}}, {"c", 1, false, false, nil, -1, []int{}}, {"C", 8, false, false, nil, -1, []int{}}, {"b", 9, false, true, nil, -1, []int{}}}, {}, {{"c", 1, false, false, nil, -1, []int{}}, {"Ab", 3, true, false, nil, -1, []int{}}, {"b", 9, false, true, nil, -1, []int{}}}, {}}},
	{func(null func(int) bool) interface{} {
		x := &Y47a{}
		if !null(0) {
			x.Y47b.Y47f = &Y47f{}
		}
		if x.Y47b.Y47f != nil && !null(1) {
			x.Y47b.Y47f.Y47g = &Y47g{}
		}
		if !null(2) {
			x.Y47b.y47c = &y47c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y47a)
		l := make([]*int, 12)
		if x.Y47b.Y47f != nil {
			l[0] = &x.Y47b.Y47f.B
		}
		if x.Y47b.Y47f != nil && x.Y47b.Y47f.Y47g != nil {
			l[1] = &x.Y47b.Y47f.Y47g.B
		}
		if x.Y47b.Y47f != nil && x.Y47b.Y47f.Y47g != nil {
			l[2] = &x.Y47b.Y47f.Y47g.A
		}
		if x.Y47b.Y47f != nil {
			l[3] = &x.Y47b.Y47f.Ab
		}
		if x.Y47b.Y47f != nil {
			l[4] = &x.Y47b.Y47f.C
		}
		l[5] = &x.Y47b.Ab
		l[6] = &x.Y47b.Y47d.Y47e.a
		l[7] = (*int)(&x.Y47b.Y47d.yn47)
		if x.Y47b.y47c != nil {
			l[8] = &x.Y47b.y47c.A
		}
		l[9] = &x.Y47b.C
		l[10] = &x.D
		l[11] = &x.B
		_ = x
		return l
	},
		[]bool{true, true, false}, [][]int{{}, {0}, {}},
		[4][]zm{{{"a", -1, false, false, []zm{{"a", -1, false, false, []zm{{"é", 0, false, false, nil, -1, []int{}}, {"A", 2, false, false, nil, -1, []int{1}}, {"a", 3, false, false, nil, -1, []int{}}, {"B", 4, false, false, nil, -1, []int{}}}, 0, []int{}}, {"ab", 5, false, false, nil, -1, []int{}}, {"A", 9, false, false, nil, -1, []int{}}}, -1, []int{}}, {"A", 10, false, false, nil, -1, []int{}}, {"B", 11, false, false, nil, -1, []int{}}}, {{"b", 11, false, false, nil, -1, []int{}}}, {{"a", -1, false, false, []zm{{"a", -1, false, false, []zm{{"é", 0, false, false, nil, -1, []int{}}, {"a", 3, false, false, nil, -1, []int{}}, {"B", 4, false, false, nil, -1, []int{}}}, 0, []int{}}, {"ab", 5, false, false, nil, -1, []int{}}, {"A", 9, false, false, nil, -1, []int{}}}, -1, []int{}}, {"A", 10, false, false, nil, -1, []int{}}}, {{"b", 11, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y50a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y50a)
		l := make([]*int, 7)
		l[0] = &x.Y50b.y50c.C
		l[1] = &x.Y50b.A
		l[2] = &x.Y50b.Ab
		l[3] = &x.D
		l[4] = &x.A
		l[5] = &x.Y50d.A
		l[6] = &x.Y50d.C
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[4][]zm{{{"C", 0, false, false, nil, -1, []int{}}, {"b", 3, false, false, nil, -1, []int{}}, {"A", 4, false, false, nil, -1, []int{}}}, {{"a", -1, false, false, []zm{{"a", 6, false, false, nil, -1, []int{}}}, -1, []int{}}}, {{"b", 3, false, false, nil, -1, []int{}}}, {{"a", -1, false, false, []zm{{"a", 6, false, false, nil, -1, []int{}}}, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y52a{}
		if !null(0) {
			x.Y52e.y52c = &y52c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y52a)
		l := make([]*int, 15)
		l[0] = &x.D
		l[1] = &x.Y52b.D
		l[2] = &x.Y52b.Ab
		l[3] = &x.Y52b.y52c.C
		l[4] = &x.Y52b.y52c.Y52d.D
		l[5] = (*int)(&x.Y52b.y52c.Y52d.YN52)
		l[6] = &x.Y52b.y52c.Y52d.B
		l[7] = &x.Y52b.y52c.B
		l[8] = &x.Y52b.C
		if x.Y52e.y52c != nil {
			l[9] = &x.Y52e.y52c.C
		}
		if x.Y52e.y52c != nil {
			l[10] = &x.Y52e.y52c.Y52d.D
		}
		if x.Y52e.y52c != nil {
			l[11] = (*int)(&x.Y52e.y52c.Y52d.YN52)
		}
		if x.Y52e.y52c != nil {
			l[12] = &x.Y52e.y52c.Y52d.B
		}
		if x.Y52e.y52c != nil {
			l[13] = &x.Y52e.y52c.B
		}
		l[14] = &x.Ab
		_ = x
		return l
	},
		[]bool{false}, [][]int{{}},
		[4][]zm{{{"a<", 0, false, false, nil, -1, []int{}}, {"D", 1, false, false, nil, -1, []int{}}, {"Ab", 2, false, false, nil, -1, []int{}}, {"YN52", 5, false, false, nil, -1, []int{}}, {"B", 6, false, false, nil, -1, []int{}}, {"-", 14, true, false, nil, -1, []int{}}}, {{"D", 0, false, false, nil, -1, []int{}}, {"Ab", 2, false, false, nil, -1, []int{}}, {"a", 4, false, false, nil, -1, []int{}}, {"ab", 6, true, false, nil, -1, []int{}}, {"B", 7, true, false, nil, -1, []int{}}, {"C", 8, true, false, nil, -1, []int{}}}, {{"a<", 0, false, false, nil, -1, []int{}}, {"D", 1, false, false, nil, -1, []int{}}, {"YN52", 5, false, false, nil, -1, []int{}}, {"-", 14, true, false, nil, -1, []int{}}}, {{"D", 3, false, false, nil, -1, []int{}}, {"a", 4, false, false, nil, -1, []int{}}, {"ab", 6, true, false, nil, -1, []int{}}, {"B", 7, true, false, nil, -1, []int{}}, {"C", 8, true, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y53a{}
		if !null(0) {
			x.Y53g = &Y53g{}
		}
		if !null(1) {
			x.Y53b = &Y53b{}
		}
		if !null(2) {
			x.Y53c.Y53e = &Y53e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y53a)
		l := make([]*int, 8)
		if x.Y53g != nil {
			l[0] = &x.Y53g.A
		}
		if x.Y53g != nil {
			l[1] = &x.Y53g.C
		}
		l[2] = &x.B
		l[3] = &x.Y53c.B
		l[4] = &x.Y53c.y53d.a
		if x.Y53c.Y53e != nil {
			l[5] = &x.Y53c.Y53e.C
		}
		if x.Y53c.Y53e != nil {
			l[6] = &x.Y53c.Y53e.A
		}
		if x.Y53c.Y53e != nil {
			l[7] = (*int)(&x.Y53c.Y53e.y53f.yn53)
		}
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {}, {}},
		[4][]zm{{{"a<", 2, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{}, -1, []int{}}, {"A", 6, false, false, nil, -1, []int{2}}, {"c", -1, false, false, []zm{}, -1, []int{2}}}, {{"A", 0, true, false, nil, -1, []int{0}}, {"d", 1, false, true, nil, -1, []int{0}}, {"B", 2, false, false, nil, -1, []int{}}, {"C", 5, false, false, nil, -1, []int{2}}, {"a", -1, false, false, []zm{}, -1, []int{2}}}, {{"a<", 2, false, false, nil, -1, []int{}}, {"a", -1, false, false, []zm{}, -1, []int{}}, {"c", -1, false, false, []zm{}, -1, []int{2}}}, {{"A", 0, true, false, nil, -1, []int{0}}, {"d", 1, false, true, nil, -1, []int{0}}, {"a", -1, false, false, []zm{}, -1, []int{2}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y55a{}
		if !null(0) {
			x.Y55f = &Y55f{}
		}
		if x.Y55f != nil && !null(1) {
			x.Y55f.Y55g = &Y55g{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y55a)
		l := make([]*int, 10)
		l[0] = &x.Ab
		if x.Y55f != nil && x.Y55f.Y55g != nil {
			l[1] = &x.Y55f.Y55g.C
		}
		if x.Y55f != nil {
			l[2] = &x.Y55f.Y55h.a
		}
		if x.Y55f != nil {
			l[3] = &x.Y55f.Y55h.B
		}
		l[4] = &x.Y55b.y55c.B
		l[5] = &x.Y55b.y55c.A
		l[6] = &x.Y55b.y55c.y55d.D
		l[7] = &x.Y55b.y55c.y55d.C
		l[8] = (*int)(&x.Y55b.yn55)
		l[9] = &x.Y55b.Ab
		_ = x
		return l
	},
		[]bool{true, true}, [][]int{{}, {0}},
		[4][]zm{{{"Ab", 0, true, false, nil, -1, []int{}}, {"c", -1, true, false, []zm{{"b", 1, false, true, nil, -1, []int{1}}, {"B", 3, false, false, nil, -1, []int{}}}, 0, []int{}}, {"B", 4, false, false, nil, -1, []int{}}, {"A", 5, false, false, nil, -1, []int{}}}, {{"Ab", 0, true, false, nil, -1, []int{}}, {"d", -1, false, false, []zm{{"D", 3, false, false, nil, -1, []int{}}}, -1, []int{0}}, {"a", -1, false, false, []zm{{"d", -1, false, false, []zm{{"B", 4, false, false, nil, -1, []int{}}, {"ab", 5, true, false, nil, -1, []int{}}, {"D", 6, false, false, nil, -1, []int{}}, {"C", 7, false, false, nil, -1, []int{}}}, -1, []int{}}, {"a", 9, false, false, nil, -1, []int{}}}, -1, []int{}}}, {{"Ab", 0, true, false, nil, -1, []int{}}, {"c", -1, true, false, []zm{{"b", 1, false, true, nil, -1, []int{1}}}, 0, []int{}}, {"B", 4, false, false, nil, -1, []int{}}}, {{"Ab", 0, true, false, nil, -1, []int{}}, {"d", -1, false, false, []zm{{"D", 3, false, false, nil, -1, []int{}}}, -1, []int{0}}, {"a", -1, false, false, []zm{{"d", -1, false, false, []zm{{"ab", 5, true, false, nil, -1, []int{}}, {"D", 6, false, false, nil, -1, []int{}}}, -1, []int{}}, {"a", 9, false, false, nil, -1, []int{}}}, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y56a{}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y56a)
		l := make([]*int, 4)
		l[0] = &x.Ab
		l[1] = &x.C
		l[2] = &x.Y56b.y56c.D
		l[3] = (*int)(&x.yn56)
		_ = x
		return l
	},
		[]bool{}, [][]int{},
		[4][]zm{{{"Ab", 0, false, false, nil, -1, []int{}}, {"c", 1, true, true, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"D", 2, false, true, nil, -1, []int{}}}, -1, []int{}}}, {{"C", 1, false, false, nil, -1, []int{}}, {"D", 2, false, false, nil, -1, []int{}}}, {{"c", 1, true, true, nil, -1, []int{}}, {"a", -1, false, false, []zm{{"D", 2, false, true, nil, -1, []int{}}}, -1, []int{}}}, {}}},
	{func(null func(int) bool) interface{} {
		x := &Y57a{}
		if !null(0) {
			x.y57b = &y57b{}
		}
		if x.y57b != nil && !null(1) {
			x.y57b.y57e = &y57e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y57a)
		l := make([]*int, 11)
		if x.y57b != nil {
			l[0] = &x.y57b.C
		}
		if x.y57b != nil {
			l[1] = &x.y57b.A
		}
		if x.y57b != nil {
			l[2] = &x.y57b.Y57c.Y57d.a
		}
		if x.y57b != nil {
			l[3] = &x.y57b.Y57c.Ab
		}
		if x.y57b != nil && x.y57b.y57e != nil {
			l[4] = &x.y57b.y57e.A
		}
		if x.y57b != nil && x.y57b.y57e != nil {
			l[5] = &x.y57b.y57e.Ab
		}
		if x.y57b != nil && x.y57b.y57e != nil {
			l[6] = &x.y57b.y57e.Y57d.a
		}
		if x.y57b != nil && x.y57b.y57e != nil {
			l[7] = (*int)(&x.y57b.y57e.YN57)
		}
		l[8] = &x.Ab
		l[9] = &x.A
		l[10] = &x.B
		_ = x
		return l
	},
		[]bool{false, false}, [][]int{{}, {0}},
		[4][]zm{{{"C", 0, false, false, nil, -1, []int{0}}, {"a", -1, false, false, []zm{{"B", 3, false, false, nil, -1, []int{}}}, -1, []int{0}}, {"a<", 4, false, false, nil, -1, []int{0, 1}}, {"-", 5, false, false, nil, -1, []int{0, 1}}, {"c", -1, false, false, []zm{}, -1, []int{0, 1}}, {"YN57", 7, false, false, nil, -1, []int{0, 1}}, {"Ab", 8, true, false, nil, -1, []int{}}, {"A", 9, false, false, nil, -1, []int{}}, {"B", 10, false, false, nil, -1, []int{}}}, {{"a", -1, false, false, []zm{}, -1, []int{0}}, {"Ab", 5, false, false, nil, -1, []int{0, 1}}, {"D", 9, false, false, nil, -1, []int{}}}, {{"a", -1, false, false, []zm{{"B", 3, false, false, nil, -1, []int{}}}, -1, []int{0}}, {"a<", 4, false, false, nil, -1, []int{0, 1}}, {"-", 5, false, false, nil, -1, []int{0, 1}}, {"c", -1, false, false, []zm{}, -1, []int{0, 1}}, {"YN57", 7, false, false, nil, -1, []int{0, 1}}, {"Ab", 8, true, false, nil, -1, []int{}}, {"A", 9, false, false, nil, -1, []int{}}, {"B", 10, false, false, nil, -1, []int{}}}, {{"a", -1, false, false, []zm{}, -1, []int{0}}, {"D", 9, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y58a{}
		if !null(0) {
			x.Y58c.Y58d = &Y58d{}
		}
		if x.Y58c.Y58d != nil && !null(1) {
			x.Y58c.Y58d.Y58e = &Y58e{}
		}
		if x.Y58c.Y58d != nil && !null(2) {
			x.Y58c.Y58d.Y58f = &Y58f{}
		}
		if !null(3) {
			x.y58b = &y58b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y58a)
		l := make([]*int, 8)
		l[0] = &x.A
		l[1] = &x.a
		l[2] = &x.C
		if x.Y58c.Y58d != nil && x.Y58c.Y58d.Y58e != nil {
			l[3] = &x.Y58c.Y58d.Y58e.Ab
		}
		if x.Y58c.Y58d != nil {
			l[4] = (*int)(&x.Y58c.Y58d.YN58)
		}
		if x.Y58c.Y58d != nil {
			l[5] = &x.Y58c.Y58d.A
		}
		if x.y58b != nil {
			l[6] = &x.y58b.Ab
		}
		if x.y58b != nil {
			l[7] = &x.y58b.A
		}
		_ = x
		return l
	},
		[]bool{true, true, true, false}, [][]int{{}, {0}, {0}, {}},
		[4][]zm{{{"c", 0, true, true, nil, -1, []int{}}, {"C", 2, false, false, nil, -1, []int{}}, {"a", 4, false, false, nil, -1, []int{0}}, {"A", 5, false, false, nil, -1, []int{0}}, {"Ab", 6, false, false, nil, -1, []int{3}}}, {{"d", 0, false, true, nil, -1, []int{}}, {"a", 2, false, false, nil, -1, []int{}}, {"D", 4, false, false, nil, -1, []int{0}}, {"A", 5, false, false, nil, -1, []int{0}}, {"Ab", 6, true, false, nil, -1, []int{3}}}, {{"c", 0, true, true, nil, -1, []int{}}, {"C", 2, false, false, nil, -1, []int{}}, {"a", 4, false, false, nil, -1, []int{0}}, {"Ab", 6, false, false, nil, -1, []int{3}}}, {{"d", 0, false, true, nil, -1, []int{}}, {"a", 2, false, false, nil, -1, []int{}}, {"D", 4, false, false, nil, -1, []int{0}}, {"Ab", 6, true, false, nil, -1, []int{3}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y59a{}
		if !null(0) {
			x.Y59b = &Y59b{}
		}
		if x.Y59b != nil && !null(1) {
			x.Y59b.Y59c = &Y59c{}
		}
		if x.Y59b != nil && x.Y59b.Y59c != nil && !null(2) {
			x.Y59b.Y59c.Y59e = &Y59e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y59a)
		l := make([]*int, 12)
		if x.Y59b != nil {
			l[0] = &x.Y59b.B
		}
		if x.Y59b != nil && x.Y59b.Y59c != nil && x.Y59b.Y59c.Y59e != nil {
			l[1] = (*int)(&x.Y59b.Y59c.Y59e.yn59)
		}
		if x.Y59b != nil && x.Y59b.Y59c != nil && x.Y59b.Y59c.Y59e != nil {
			l[2] = &x.Y59b.Y59c.Y59e.B
		}
		if x.Y59b != nil && x.Y59b.Y59c != nil && x.Y59b.Y59c.Y59e != nil {
			l[3] = &x.Y59b.Y59c.Y59e.C
		}
		if x.Y59b != nil && x.Y59b.Y59c != nil {
			l[4] = &x.Y59b.Y59c.B
		}
		if x.Y59b != nil && x.Y59b.Y59c != nil {
			l[5] = &x.Y59b.Y59c.Y59d.B
		}
		if x.Y59b != nil && x.Y59b.Y59c != nil {
			l[6] = &x.Y59b.Y59c.Y59d.A
		}
		if x.Y59b != nil && x.Y59b.Y59c != nil {
			l[7] = &x.Y59b.Y59c.Y59d.C
		}
		if x.Y59b != nil && x.Y59b.Y59c != nil {
			l[8] = &x.Y59b.Y59c.Ab
		}
		if x.Y59b != nil {
			l[9] = &x.Y59b.Ab
		}
		l[10] = &x.A
		l[11] = &x.B
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {0}, {0, 1}},
		[4][]zm{{{"A", 0, false, false, nil, -1, []int{0}}, {"b", 4, false, true, nil, -1, []int{0, 1}}, {"Ab", 9, false, false, nil, -1, []int{0}}, {"B", 10, false, false, nil, -1, []int{}}, {"a", 11, false, false, nil, -1, []int{}}}, {{"B", 0, false, false, nil, -1, []int{0}}, {"b", 10, false, false, nil, -1, []int{}}, {"d", 11, false, false, nil, -1, []int{}}}, {{"A", 0, false, false, nil, -1, []int{0}}, {"b", 4, false, true, nil, -1, []int{0, 1}}, {"B", 10, false, false, nil, -1, []int{}}, {"a", 11, false, false, nil, -1, []int{}}}, {{"b", 10, false, false, nil, -1, []int{}}, {"d", 11, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y63a{}
		if !null(0) {
			x.y63f = &y63f{}
		}
		if !null(1) {
			x.Y63b = &Y63b{}
		}
		if x.Y63b != nil && !null(2) {
			x.Y63b.Y63e = &Y63e{}
		}
		if x.Y63b != nil && !null(3) {
			x.Y63b.Y63c.Y63e = &Y63e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y63a)
		l := make([]*int, 14)
		if x.y63f != nil {
			l[0] = &x.y63f.C
		}
		if x.y63f != nil {
			l[1] = &x.y63f.Ab
		}
		if x.y63f != nil {
			l[2] = &x.y63f.Y63g.Ab
		}
		if x.y63f != nil {
			l[3] = &x.y63f.Y63g.D
		}
		if x.y63f != nil {
			l[4] = &x.y63f.Y63g.A
		}
		l[5] = &x.a
		l[6] = &x.D
		if x.Y63b != nil && x.Y63b.Y63e != nil {
			l[7] = (*int)(&x.Y63b.Y63e.YN63)
		}
		if x.Y63b != nil && x.Y63b.Y63c.Y63e != nil {
			l[8] = (*int)(&x.Y63b.Y63c.Y63e.YN63)
		}
		if x.Y63b != nil {
			l[9] = &x.Y63b.Y63c.y63d.D
		}
		if x.Y63b != nil {
			l[10] = &x.Y63b.Y63c.y63d.C
		}
		if x.Y63b != nil {
			l[11] = &x.Y63b.Y63c.y63d.Ab
		}
		if x.Y63b != nil {
			l[12] = &x.Y63b.C
		}
		if x.Y63b != nil {
			l[13] = &x.Y63b.D
		}
		_ = x
		return l
	},
		[]bool{false, true, true, true}, [][]int{{}, {}, {1}, {1}},
		[4][]zm{{{"C", 0, false, false, nil, -1, []int{0}}, {"B", 6, false, false, nil, -1, []int{}}, {"YN63", 8, false, false, nil, -1, []int{1, 3}}, {"a", 12, true, false, nil, -1, []int{1}}, {"D", 13, false, false, nil, -1, []int{1}}}, {{"D", 0, false, false, nil, -1, []int{0}}, {"d", 1, false, false, nil, -1, []int{0}}, {"b", 6, false, false, nil, -1, []int{}}, {"ab", 7, true, false, nil, -1, []int{1, 2}}, {"C", 12, false, false, nil, -1, []int{1}}}, {{"B", 6, false, false, nil, -1, []int{}}, {"YN63", 8, false, false, nil, -1, []int{1, 3}}, {"a", 12, true, false, nil, -1, []int{1}}}, {{"D", 0, false, false, nil, -1, []int{0}}, {"d", 1, false, false, nil, -1, []int{0}}, {"b", 6, false, false, nil, -1, []int{}}, {"ab", 7, true, false, nil, -1, []int{1, 2}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y67a{}
		if !null(0) {
			x.Y67b.Y67e.Y67f = &Y67f{}
		}
		if !null(1) {
			x.Y67b.Y67g = &Y67g{}
		}
		if !null(2) {
			x.Y67b.Y67c.Y67d = &Y67d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y67a)
		l := make([]*int, 13)
		l[0] = &x.Y67b.Y67e.Ab
		l[1] = &x.Y67b.Y67e.a
		if x.Y67b.Y67e.Y67f != nil {
			l[2] = &x.Y67b.Y67e.Y67f.Ab
		}
		if x.Y67b.Y67e.Y67f != nil {
			l[3] = &x.Y67b.Y67e.Y67f.C
		}
		if x.Y67b.Y67g != nil {
			l[4] = &x.Y67b.Y67g.D
		}
		if x.Y67b.Y67g != nil {
			l[5] = &x.Y67b.Y67g.C
		}
		l[6] = &x.Y67b.A
		l[7] = &x.Y67b.Ab
		if x.Y67b.Y67c.Y67d != nil {
			l[8] = &x.Y67b.Y67c.Y67d.a
		}
		if x.Y67b.Y67c.Y67d != nil {
			l[9] = &x.Y67b.Y67c.Y67d.A
		}
		l[10] = &x.Y67b.Y67c.C
		l[11] = &x.A
		l[12] = &x.Ab
		_ = x
		return l
	},
		[]bool{true, true, true}, [][]int{{}, {}, {}},
		[4][]zm{{{"a", -1, false, false, []zm{{"Ab", 0, false, true, nil, -1, []int{}}, {"b", 3, false, true, nil, -1, []int{0}}}, -1, []int{}}, {"b", 4, false, true, nil, -1, []int{1}}, {"A", 6, false, false, nil, -1, []int{}}, {"Ab", 7, true, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"a", 9, false, false, nil, -1, []int{2}}, {"B", 10, false, false, nil, -1, []int{}}}, -1, []int{}}}, {{"A", 9, true, false, nil, -1, []int{2}}, {"D", 10, false, false, nil, -1, []int{}}, {"b", 11, false, false, nil, -1, []int{}}, {"a", 12, false, false, nil, -1, []int{}}}, {{"a", -1, false, false, []zm{{"Ab", 0, false, true, nil, -1, []int{}}, {"b", 3, false, true, nil, -1, []int{0}}}, -1, []int{}}, {"b", 4, false, true, nil, -1, []int{1}}, {"Ab", 7, true, false, nil, -1, []int{}}, {"c", -1, false, false, []zm{{"a", 9, false, false, nil, -1, []int{2}}, {"B", 10, false, false, nil, -1, []int{}}}, -1, []int{}}}, {{"A", 9, true, false, nil, -1, []int{2}}, {"D", 10, false, false, nil, -1, []int{}}, {"b", 11, false, false, nil, -1, []int{}}, {"a", 12, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y68a{}
		if !null(0) {
			x.y68b = &y68b{}
		}
		if x.y68b != nil && !null(1) {
			x.y68b.Y68c = &Y68c{}
		}
		if x.y68b != nil && x.y68b.Y68c != nil && !null(2) {
			x.y68b.Y68c.Y68d = &Y68d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y68a)
		l := make([]*int, 8)
		l[0] = &x.C
		l[1] = &x.B
		if x.y68b != nil {
			l[2] = &x.y68b.a
		}
		if x.y68b != nil {
			l[3] = &x.y68b.C
		}
		if x.y68b != nil {
			l[4] = &x.y68b.B
		}
		if x.y68b != nil {
			l[5] = &x.y68b.D
		}
		if x.y68b != nil && x.y68b.Y68c != nil {
			l[6] = &x.y68b.Y68c.Y68e.C
		}
		if x.y68b != nil && x.y68b.Y68c != nil {
			l[7] = &x.y68b.Y68c.Y68e.B
		}
		_ = x
		return l
	},
		[]bool{false, true, true}, [][]int{{}, {0}, {0, 1}},
		[4][]zm{{{"a", 0, true, false, nil, -1, []int{}}, {"B", 1, false, false, nil, -1, []int{}}, {"é", 4, false, false, nil, -1, []int{0}}, {"C", 6, false, true, nil, -1, []int{0, 1}}, {"b", 7, false, false, nil, -1, []int{0, 1}}}, {{"a", 0, false, false, nil, -1, []int{}}, {"d", 1, false, false, nil, -1, []int{}}, {"C", 3, false, false, nil, -1, []int{0}}, {"B", 4, true, false, nil, -1, []int{0}}, {"D", 5, false, false, nil, -1, []int{0}}}, {{"a", 0, true, false, nil, -1, []int{}}, {"B", 1, false, false, nil, -1, []int{}}, {"é", 4, false, false, nil, -1, []int{0}}, {"C", 6, false, true, nil, -1, []int{0, 1}}, {"b", 7, false, false, nil, -1, []int{0, 1}}}, {{"a", 0, false, false, nil, -1, []int{}}, {"d", 1, false, false, nil, -1, []int{}}, {"B", 4, true, false, nil, -1, []int{0}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y69a{}
		if !null(0) {
			x.Y69b = &Y69b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y69a)
		l := make([]*int, 7)
		l[0] = &x.B
		if x.Y69b != nil {
			l[1] = &x.Y69b.Y69c.Y69d.D
		}
		if x.Y69b != nil {
			l[2] = &x.Y69b.Y69c.Y69d.B
		}
		if x.Y69b != nil {
			l[3] = &x.Y69b.Ab
		}
		if x.Y69b != nil {
			l[4] = &x.Y69b.B
		}
		l[5] = &x.C
		l[6] = &x.Ab
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[4][]zm{{{"a", 0, false, false, nil, -1, []int{}}, {"D", 1, false, false, nil, -1, []int{0}}, {"c", 3, true, true, nil, -1, []int{0}}, {"B", 4, false, false, nil, -1, []int{0}}, {"C", 5, false, false, nil, -1, []int{}}, {"-", 6, false, false, nil, -1, []int{}}}, {{"D", 0, false, false, nil, -1, []int{}}, {"B", 2, false, false, nil, -1, []int{0}}, {"b", 3, false, false, nil, -1, []int{0}}, {"ab", 4, true, false, nil, -1, []int{0}}}, {{"a", 0, false, false, nil, -1, []int{}}, {"c", 3, true, true, nil, -1, []int{0}}, {"B", 4, false, false, nil, -1, []int{0}}, {"-", 6, false, false, nil, -1, []int{}}}, {{"D", 0, false, false, nil, -1, []int{}}, {"b", 3, false, false, nil, -1, []int{0}}, {"ab", 4, true, false, nil, -1, []int{0}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y71a{}
		if !null(0) {
			x.Y71b = &Y71b{}
		}
		if x.Y71b != nil && !null(1) {
			x.Y71b.Y71c.y71d = &y71d{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y71a)
		l := make([]*int, 9)
		if x.Y71b != nil {
			l[0] = &x.Y71b.D
		}
		if x.Y71b != nil && x.Y71b.Y71c.y71d != nil {
			l[1] = &x.Y71b.Y71c.y71d.a
		}
		if x.Y71b != nil {
			l[2] = &x.Y71b.C
		}
		if x.Y71b != nil {
			l[3] = &x.Y71b.y71d.a
		}
		if x.Y71b != nil {
			l[4] = &x.Y71b.A
		}
		l[5] = &x.D
		l[6] = (*int)(&x.Y71e.yn71)
		l[7] = &x.Y71e.C
		l[8] = &x.A
		_ = x
		return l
	},
		[]bool{true, false}, [][]int{{}, {0}},
		[4][]zm{{{"C", 2, false, false, nil, -1, []int{0}}, {"A", 4, false, true, nil, -1, []int{0}}, {"D", 5, true, false, nil, -1, []int{}}, {"-", 7, false, true, nil, -1, []int{}}, {"é", 8, false, false, nil, -1, []int{}}}, {{"b", 2, false, false, nil, -1, []int{0}}, {"D", 4, false, false, nil, -1, []int{0}}, {"ab", 7, true, false, nil, -1, []int{}}}, {{"A", 4, false, true, nil, -1, []int{0}}, {"D", 5, true, false, nil, -1, []int{}}, {"-", 7, false, true, nil, -1, []int{}}, {"é", 8, false, false, nil, -1, []int{}}}, {{"b", 2, false, false, nil, -1, []int{0}}, {"D", 4, false, false, nil, -1, []int{0}}, {"ab", 7, true, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y73a{}
		if !null(0) {
			x.y73b = &y73b{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y73a)
		l := make([]*int, 3)
		if x.y73b != nil {
			l[0] = &x.y73b.A
		}
		l[1] = &x.D
		l[2] = &x.C
		_ = x
		return l
	},
		[]bool{false}, [][]int{{}},
		[4][]zm{{{"b", 0, false, true, nil, -1, []int{0}}, {"é", 1, false, false, nil, -1, []int{}}, {"C", 2, false, false, nil, -1, []int{}}}, {{"D", 1, false, false, nil, -1, []int{}}, {"d", 2, false, false, nil, -1, []int{}}}, {{"b", 0, false, true, nil, -1, []int{0}}, {"é", 1, false, false, nil, -1, []int{}}}, {{"d", 2, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y75a{}
		if !null(0) {
			x.Y75b.Y75c = &Y75c{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y75a)
		l := make([]*int, 6)
		l[0] = &x.Ab
		l[1] = &x.C
		l[2] = &x.Y75b.A
		l[3] = &x.Y75b.a
		if x.Y75b.Y75c != nil {
			l[4] = &x.Y75b.Y75c.a
		}
		l[5] = &x.Y75b.Ab
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[4][]zm{{{"a", 0, true, false, nil, -1, []int{}}, {"C", 1, false, false, nil, -1, []int{}}, {"A", 2, false, false, nil, -1, []int{}}, {"c", -1, true, false, []zm{}, 0, []int{}}, {"Ab", 5, false, false, nil, -1, []int{}}}, {{"d", 0, false, true, nil, -1, []int{}}, {"b", 1, false, false, nil, -1, []int{}}, {"D", 5, false, false, nil, -1, []int{}}}, {{"a", 0, true, false, nil, -1, []int{}}, {"C", 1, false, false, nil, -1, []int{}}, {"c", -1, true, false, []zm{}, 0, []int{}}}, {{"d", 0, false, true, nil, -1, []int{}}, {"b", 1, false, false, nil, -1, []int{}}, {"D", 5, false, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y76a{}
		if !null(0) {
			x.Y76b.y76e = &y76e{}
		}
		if x.Y76b.y76e != nil && !null(1) {
			x.Y76b.y76e.y76f = &y76f{}
		}
		if !null(2) {
			x.Y76b.y76c = &y76c{}
		}
		if !null(3) {
			x.Y76g = &Y76g{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y76a)
		l := make([]*int, 16)
		l[0] = (*int)(&x.Y76b.YN76)
		l[1] = &x.Y76b.Ab
		if x.Y76b.y76e != nil && x.Y76b.y76e.y76f != nil {
			l[2] = &x.Y76b.y76e.y76f.Ab
		}
		if x.Y76b.y76e != nil && x.Y76b.y76e.y76f != nil {
			l[3] = (*int)(&x.Y76b.y76e.y76f.yn76)
		}
		if x.Y76b.y76e != nil {
			l[4] = &x.Y76b.y76e.C
		}
		if x.Y76b.y76e != nil {
			l[5] = &x.Y76b.y76e.D
		}
		if x.Y76b.y76c != nil {
			l[6] = &x.Y76b.y76c.Ab
		}
		if x.Y76b.y76c != nil {
			l[7] = &x.Y76b.y76c.C
		}
		if x.Y76b.y76c != nil {
			l[8] = &x.Y76b.y76c.B
		}
		l[9] = &x.Y76h.a
		l[10] = &x.Y76h.B
		l[11] = &x.Ab
		if x.Y76g != nil {
			l[12] = (*int)(&x.Y76g.YN76)
		}
		if x.Y76g != nil {
			l[13] = &x.Y76g.B
		}
		if x.Y76g != nil {
			l[14] = &x.Y76g.a
		}
		l[15] = &x.B
		_ = x
		return l
	},
		[]bool{false, false, false, true}, [][]int{{}, {0}, {}, {}},
		[4][]zm{{{"é", 1, false, false, nil, -1, []int{}}, {"D", 5, false, true, nil, -1, []int{0}}, {"-", 8, true, false, nil, -1, []int{2}}, {"b", 11, false, false, nil, -1, []int{}}, {"a", 12, false, false, nil, -1, []int{3}}, {"a<", 13, false, false, nil, -1, []int{3}}, {"B", 15, false, false, nil, -1, []int{}}}, {{"Ab", 2, false, false, nil, -1, []int{0, 1}}, {"D", 5, false, false, nil, -1, []int{0}}, {"d", 6, false, false, nil, -1, []int{2}}, {"a", 10, false, false, nil, -1, []int{}}, {"b", 11, false, false, nil, -1, []int{}}, {"B", 13, true, false, nil, -1, []int{3}}, {"ab", 15, true, false, nil, -1, []int{}}}, {{"é", 1, false, false, nil, -1, []int{}}, {"D", 5, false, true, nil, -1, []int{0}}, {"-", 8, true, false, nil, -1, []int{2}}, {"B", 10, false, false, nil, -1, []int{}}, {"b", 11, false, false, nil, -1, []int{}}, {"a", 12, false, false, nil, -1, []int{3}}, {"a<", 13, false, false, nil, -1, []int{3}}}, {{"d", 6, false, false, nil, -1, []int{2}}, {"a", 10, false, false, nil, -1, []int{}}, {"b", 11, false, false, nil, -1, []int{}}, {"B", 13, true, false, nil, -1, []int{3}}, {"ab", 15, true, false, nil, -1, []int{}}}}},
	{func(null func(int) bool) interface{} {
		x := &Y77a{}
		if !null(0) {
			x.Y77b.Y77c.Y77e = &Y77e{}
		}
		return x
	}, func(r interface{}) []*int {
		x := r.(*Y77a)
		l := make([]*int, 8)
		l[0] = &x.Y77b.C
		l[1] = &x.Y77b.Y77c.C
		if x.Y77b.Y77c.Y77e != nil {
			l[2] = &x.Y77b.Y77c.Y77e.Ab
		}
		l[3] = &x.Y77b.Y77c.Ab
		l[4] = &x.Y77b.Y77c.A
		l[5] = &x.Y77b.A
		l[6] = &x.D
		l[7] = &x.Ab
		_ = x
		return l
	},
		[]bool{true}, [][]int{{}},
		[4][]zm{{{"é", 0, false, false, nil, -1, []int{}}, {"C", 1, false, false, nil, -1, []int{}}, {"A", 4, false, false, nil, -1, []int{}}, {"b", 5, false, false, nil, -1, []int{}}, {"-", 6, false, true, nil, -1, []int{}}, {"Ab", 7, false, false, nil, -1, []int{}}}, {{"d", -1, false, false, []zm{{"D", 0, false, false, nil, -1, []int{}}, {"Ab", 3, false, false, nil, -1, []int{}}, {"d", 4, false, true, nil, -1, []int{}}, {"A", 5, false, false, nil, -1, []int{}}}, -1, []int{}}, {"b", 6, false, false, nil, -1, []int{}}, {"a", 7, false, false, nil, -1, []int{}}}, {{"é", 0, false, false, nil, -1, []int{}}, {"C", 1, false, false, nil, -1, []int{}}, {"A", 2, false, false, nil, -1, []int{0}}, {"b", 5, false, false, nil, -1, []int{}}, {"-", 6, false, true, nil, -1, []int{}}}, {{"d", -1, false, false, []zm{{"D", 0, false, false, nil, -1, []int{}}, {"Ab", 2, true, false, nil, -1, []int{0}}, {"d", 4, false, true, nil, -1, []int{}}}, -1, []int{}}, {"b", 6, false, false, nil, -1, []int{}}, {"a", 7, false, false, nil, -1, []int{}}}}},
}
