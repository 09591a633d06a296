package h

type wide struct {
	F000 int
	F001 int
	F002 int
	F003 int
	F004 int
	F005 int
	F006 int
	F007 int
	F008 int
	F009 int
	F010 int
	F011 int
	F012 int
	F013 int
	F014 int
	F015 int
	F016 int
	F017 int
	F018 int
	F019 int
	F020 int
	F021 int
	F022 int
	F023 int
	F024 int
	F025 int
	F026 int
	F027 int
	F028 int
	F029 int
	F030 int
	F031 int
	F032 int
	F033 int
	F034 int
	F035 int
	F036 int
	F037 int
	F038 int
	F039 int
	F040 int
	F041 int
	F042 int
	F043 int
	F044 int
	F045 int
	F046 int
	F047 int
	F048 int
	F049 int
	F050 int
	F051 int
	F052 int
	F053 int
	F054 int
	F055 int
	F056 int
	F057 int
	F058 int
	F059 int
	F060 int
	F061 int
	F062 int
	F063 int
	F064 int
	F065 int
	F066 int
	F067 int
	F068 int
	F069 int
	F070 int
	F071 int
	F072 int
	F073 int
	F074 int
	F075 int
	F076 int
	F077 int
	F078 int
	F079 int
	F080 int
	F081 int
	F082 int
	F083 int
	F084 int
	F085 int
	F086 int
	F087 int
	F088 int
	F089 int
	F090 int
	F091 int
	F092 int
	F093 int
	F094 int
	F095 int
	F096 int
	F097 int
	F098 int
	F099 int
	F100 int
	F101 int
	F102 int
	F103 int
	F104 int
	F105 int
	F106 int
	F107 int
	F108 int
	F109 int
	F110 int
	F111 int
	F112 int
	F113 int
	F114 int
	F115 int
	F116 int
	F117 int
	F118 int
	F119 int
	F120 int
	F121 int
	F122 int
	F123 int
	F124 int
	F125 int
	F126 int
	F127 int
	F128 int
	F129 int
	F130 int
	F131 int
	F132 int
	F133 int
	F134 int
	F135 int
	F136 int
	F137 int
	F138 int
	F139 int
	F140 int
	F141 int
	F142 int
	F143 int
	F144 int
	F145 int
	F146 int
	F147 int
	F148 int
	F149 int
	F150 int
	F151 int
	F152 int
	F153 int
	F154 int
	F155 int
	F156 int
	F157 int
	F158 int
	F159 int
	F160 int
	F161 int
	F162 int
	F163 int
	F164 int
	F165 int
	F166 int
	F167 int
	F168 int
	F169 int
	F170 int
	F171 int
	F172 int
	F173 int
	F174 int
	F175 int
	F176 int
	F177 int
	F178 int
	F179 int
	F180 int
	F181 int
	F182 int
	F183 int
	F184 int
	F185 int
	F186 int
	F187 int
	F188 int
	F189 int
	F190 int
	F191 int
	F192 int
	F193 int
	F194 int
	F195 int
	F196 int
	F197 int
	F198 int
	F199 int
	F200 int
	F201 int
	F202 int
	F203 int
	F204 int
	F205 int
	F206 int
	F207 int
	F208 int
	F209 int
	F210 int
	F211 int
	F212 int
	F213 int
	F214 int
	F215 int
	F216 int
	F217 int
	F218 int
	F219 int
	F220 int
	F221 int
	F222 int
	F223 int
	F224 int
	F225 int
	F226 int
	F227 int
	F228 int
	F229 int
	F230 int
	F231 int
	F232 int
	F233 int
	F234 int
	F235 int
	F236 int
	F237 int
	F238 int
	F239 int
	F240 int
	F241 int
	F242 int
	F243 int
	F244 int
	F245 int
	F246 int
	F247 int
	F248 int
	F249 int
	F250 int
	F251 int
	F252 int
	F253 int
	F254 int
	F255 int
	F256 int
	F257 int
	F258 int
	F259 int
	F260 int
	F261 int
	F262 int
	F263 int
	F264 int
	F265 int
	F266 int
	F267 int
	F268 int
	F269 int
	F270 int
	F271 int
	F272 int
	F273 int
	F274 int
	F275 int
	F276 int
	F277 int
	F278 int
	F279 int
	F280 int
	F281 int
	F282 int
	F283 int
	F284 int
	F285 int
	F286 int
	F287 int
	F288 int
	F289 int
	F290 int
	F291 int
	F292 int
	F293 int
	F294 int
	F295 int
	F296 int
	F297 int
	F298 int
	F299 int
}

func (t *wide) fields() []*int {
	return []*int{
		&t.F000,
		&t.F001,
		&t.F002,
		&t.F003,
		&t.F004,
		&t.F005,
		&t.F006,
		&t.F007,
		&t.F008,
		&t.F009,
		&t.F010,
		&t.F011,
		&t.F012,
		&t.F013,
		&t.F014,
		&t.F015,
		&t.F016,
		&t.F017,
		&t.F018,
		&t.F019,
		&t.F020,
		&t.F021,
		&t.F022,
		&t.F023,
		&t.F024,
		&t.F025,
		&t.F026,
		&t.F027,
		&t.F028,
		&t.F029,
		&t.F030,
		&t.F031,
		&t.F032,
		&t.F033,
		&t.F034,
		&t.F035,
		&t.F036,
		&t.F037,
		&t.F038,
		&t.F039,
		&t.F040,
		&t.F041,
		&t.F042,
		&t.F043,
		&t.F044,
		&t.F045,
		&t.F046,
		&t.F047,
		&t.F048,
		&t.F049,
		&t.F050,
		&t.F051,
		&t.F052,
		&t.F053,
		&t.F054,
		&t.F055,
		&t.F056,
		&t.F057,
		&t.F058,
		&t.F059,
		&t.F060,
		&t.F061,
		&t.F062,
		&t.F063,
		&t.F064,
		&t.F065,
		&t.F066,
		&t.F067,
		&t.F068,
		&t.F069,
		&t.F070,
		&t.F071,
		&t.F072,
		&t.F073,
		&t.F074,
		&t.F075,
		&t.F076,
		&t.F077,
		&t.F078,
		&t.F079,
		&t.F080,
		&t.F081,
		&t.F082,
		&t.F083,
		&t.F084,
		&t.F085,
		&t.F086,
		&t.F087,
		&t.F088,
		&t.F089,
		&t.F090,
		&t.F091,
		&t.F092,
		&t.F093,
		&t.F094,
		&t.F095,
		&t.F096,
		&t.F097,
		&t.F098,
		&t.F099,
		&t.F100,
		&t.F101,
		&t.F102,
		&t.F103,
		&t.F104,
		&t.F105,
		&t.F106,
		&t.F107,
		&t.F108,
		&t.F109,
		&t.F110,
		&t.F111,
		&t.F112,
		&t.F113,
		&t.F114,
		&t.F115,
		&t.F116,
		&t.F117,
		&t.F118,
		&t.F119,
		&t.F120,
		&t.F121,
		&t.F122,
		&t.F123,
		&t.F124,
		&t.F125,
		&t.F126,
		&t.F127,
		&t.F128,
		&t.F129,
		&t.F130,
		&t.F131,
		&t.F132,
		&t.F133,
		&t.F134,
		&t.F135,
		&t.F136,
		&t.F137,
		&t.F138,
		&t.F139,
		&t.F140,
		&t.F141,
		&t.F142,
		&t.F143,
		&t.F144,
		&t.F145,
		&t.F146,
		&t.F147,
		&t.F148,
		&t.F149,
		&t.F150,
		&t.F151,
		&t.F152,
		&t.F153,
		&t.F154,
		&t.F155,
		&t.F156,
		&t.F157,
		&t.F158,
		&t.F159,
		&t.F160,
		&t.F161,
		&t.F162,
		&t.F163,
		&t.F164,
		&t.F165,
		&t.F166,
		&t.F167,
		&t.F168,
		&t.F169,
		&t.F170,
		&t.F171,
		&t.F172,
		&t.F173,
		&t.F174,
		&t.F175,
		&t.F176,
		&t.F177,
		&t.F178,
		&t.F179,
		&t.F180,
		&t.F181,
		&t.F182,
		&t.F183,
		&t.F184,
		&t.F185,
		&t.F186,
		&t.F187,
		&t.F188,
		&t.F189,
		&t.F190,
		&t.F191,
		&t.F192,
		&t.F193,
		&t.F194,
		&t.F195,
		&t.F196,
		&t.F197,
		&t.F198,
		&t.F199,
		&t.F200,
		&t.F201,
		&t.F202,
		&t.F203,
		&t.F204,
		&t.F205,
		&t.F206,
		&t.F207,
		&t.F208,
		&t.F209,
		&t.F210,
		&t.F211,
		&t.F212,
		&t.F213,
		&t.F214,
		&t.F215,
		&t.F216,
		&t.F217,
		&t.F218,
		&t.F219,
		&t.F220,
		&t.F221,
		&t.F222,
		&t.F223,
		&t.F224,
		&t.F225,
		&t.F226,
		&t.F227,
		&t.F228,
		&t.F229,
		&t.F230,
		&t.F231,
		&t.F232,
		&t.F233,
		&t.F234,
		&t.F235,
		&t.F236,
		&t.F237,
		&t.F238,
		&t.F239,
		&t.F240,
		&t.F241,
		&t.F242,
		&t.F243,
		&t.F244,
		&t.F245,
		&t.F246,
		&t.F247,
		&t.F248,
		&t.F249,
		&t.F250,
		&t.F251,
		&t.F252,
		&t.F253,
		&t.F254,
		&t.F255,
		&t.F256,
		&t.F257,
		&t.F258,
		&t.F259,
		&t.F260,
		&t.F261,
		&t.F262,
		&t.F263,
		&t.F264,
		&t.F265,
		&t.F266,
		&t.F267,
		&t.F268,
		&t.F269,
		&t.F270,
		&t.F271,
		&t.F272,
		&t.F273,
		&t.F274,
		&t.F275,
		&t.F276,
		&t.F277,
		&t.F278,
		&t.F279,
		&t.F280,
		&t.F281,
		&t.F282,
		&t.F283,
		&t.F284,
		&t.F285,
		&t.F286,
		&t.F287,
		&t.F288,
		&t.F289,
		&t.F290,
		&t.F291,
		&t.F292,
		&t.F293,
		&t.F294,
		&t.F295,
		&t.F296,
		&t.F297,
		&t.F298,
		&t.F299,
	}
}
