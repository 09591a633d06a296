// Code generated by gen.sh; DO NOT EDIT.
package main

import "vharness/h"

var harnesses = map[string]func(){
	"H_cbStop":      h.H_cbStop,
	"H_cfgDec":      h.H_cfgDec,
	"H_cfgDecN":     h.H_cfgDecN,
	"H_cfgEnc":      h.H_cfgEnc,
	"H_cfgEncOff":   h.H_cfgEncOff,
	"H_cfgNamed":    h.H_cfgNamed,
	"H_cont":        h.H_cont,
	"H_contE":       h.H_contE,
	"H_contHuge":    h.H_contHuge,
	"H_contLong":    h.H_contLong,
	"H_contT":       h.H_contT,
	"H_cut":         h.H_cut,
	"H_dec":         h.H_dec,
	"H_decFail":     h.H_decFail,
	"H_decMany":     h.H_decMany,
	"H_decT":        h.H_decT,
	"H_deep":        h.H_deep,
	"H_deepMid":     h.H_deepMid,
	"H_efaceAgain":  h.H_efaceAgain,
	"H_enc":         h.H_enc,
	"H_encBig":      h.H_encBig,
	"H_encMap":      h.H_encMap,
	"H_encStruct":   h.H_encStruct,
	"H_encode":      h.H_encode,
	"H_err":         h.H_err,
	"H_float":       h.H_float,
	"H_floatEnc":    h.H_floatEnc,
	"H_floatEncR":   h.H_floatEncR,
	"H_floatT":      h.H_floatT,
	"H_floatTail":   h.H_floatTail,
	"H_generic":     h.H_generic,
	"H_genericDeep": h.H_genericDeep,
	"H_genericGen":  h.H_genericGen,
	"H_genericHuge": h.H_genericHuge,
	"H_genericT":    h.H_genericT,
	"H_genericW":    h.H_genericW,
	"H_genericWide": h.H_genericWide,
	"H_hookDec":     h.H_hookDec,
	"H_hookDecT":    h.H_hookDecT,
	"H_hookEnc":     h.H_hookEnc,
	"H_hookI":       h.H_hookI,
	"H_hookKey":     h.H_hookKey,
	"H_hookKeyEnc":  h.H_hookKeyEnc,
	"H_hookStd":     h.H_hookStd,
	"H_hookStdDec":  h.H_hookStdDec,
	"H_int":         h.H_int,
	"H_intD":        h.H_intD,
	"H_intEnc":      h.H_intEnc,
	"H_intL":        h.H_intL,
	"H_intRound":    h.H_intRound,
	"H_intTail":     h.H_intTail,
	"H_keep":        h.H_keep,
	"H_keepEnc":     h.H_keepEnc,
	"H_keepLen":     h.H_keepLen,
	"H_keepPull":    h.H_keepPull,
	"H_kind":        h.H_kind,
	"H_kindT":       h.H_kindT,
	"H_long":        h.H_long,
	"H_nested":      h.H_nested,
	"H_nestedT":     h.H_nestedT,
	"H_omit":        h.H_omit,
	"H_ops":         h.H_ops,
	"H_optDec":      h.H_optDec,
	"H_optEnc":      h.H_optEnc,
	"H_over":        h.H_over,
	"H_par":         h.H_par,
	"H_pull":        h.H_pull,
	"H_pull2":       h.H_pull2,
	"H_pullT":       h.H_pullT,
	"H_quoted":      h.H_quoted,
	"H_raw":         h.H_raw,
	"H_rawHuge":     h.H_rawHuge,
	"H_rawIn":       h.H_rawIn,
	"H_rawLong":     h.H_rawLong,
	"H_rawT":        h.H_rawT,
	"H_reuse":       h.H_reuse,
	"H_reuseCont":   h.H_reuseCont,
	"H_reuseEnc":    h.H_reuseEnc,
	"H_reuseOps":    h.H_reuseOps,
	"H_reuseT":      h.H_reuseT,
	"H_skip":        h.H_skip,
	"H_skipGen":     h.H_skipGen,
	"H_skipHuge":    h.H_skipHuge,
	"H_skipT":       h.H_skipT,
	"H_skipW":       h.H_skipW,
	"H_stdReader":   h.H_stdReader,
	"H_str":         h.H_str,
	"H_strAny":      h.H_strAny,
	"H_strEnc":      h.H_strEnc,
	"H_strEncHuge":  h.H_strEncHuge,
	"H_strEncT":     h.H_strEncT,
	"H_strHuge":     h.H_strHuge,
	"H_strLong":     h.H_strLong,
	"H_strRound":    h.H_strRound,
	"H_strT":        h.H_strT,
	"H_stream":      h.H_stream,
	"H_streamB":     h.H_streamB,
	"H_streamFail":  h.H_streamFail,
	"H_streamFailN": h.H_streamFailN,
	"H_streamHuge":  h.H_streamHuge,
	"H_streamT":     h.H_streamT,
	"H_streamW":     h.H_streamW,
	"H_struct":      h.H_struct,
	"H_struct2":     h.H_struct2,
	"H_structDec":   h.H_structDec,
	"H_structEnc":   h.H_structEnc,
	"H_structN":     h.H_structN,
	"H_structT":     h.H_structT,
	"H_tagDec":      h.H_tagDec,
	"H_tagEnc":      h.H_tagEnc,
	"H_valid":       h.H_valid,
	"H_validGen":    h.H_validGen,
	"H_validHuge":   h.H_validHuge,
	"H_validT":      h.H_validT,
	"H_validW":      h.H_validW,
	"H_walk":        h.H_walk,
	"H_walkGen":     h.H_walkGen,
	"H_walkHuge":    h.H_walkHuge,
	"H_walkLong":    h.H_walkLong,
	"H_walkT":       h.H_walkT,
	"H_walkW":       h.H_walkW,
	"H_wide":        h.H_wide,
	"H_wideEnc":     h.H_wideEnc,
	"H_zoo":         h.H_zoo,
	"H_zooT":        h.H_zooT,
}
var setups = map[string]func(){
	"H_cfgDec":      h.S_cfgDec,
	"H_cfgDecN":     h.S_cfgDecN,
	"H_cont":        h.S_cont,
	"H_contE":       h.S_contE,
	"H_contHuge":    h.S_contHuge,
	"H_contLong":    h.S_contLong,
	"H_contT":       h.S_contT,
	"H_cut":         h.S_cut,
	"H_dec":         h.S_dec,
	"H_decFail":     h.S_decFail,
	"H_decMany":     h.S_decMany,
	"H_decT":        h.S_decT,
	"H_efaceAgain":  h.S_efaceAgain,
	"H_enc":         h.S_enc,
	"H_encBig":      h.S_encBig,
	"H_err":         h.S_err,
	"H_float":       h.S_float,
	"H_floatEnc":    h.S_floatEnc,
	"H_floatEncR":   h.S_floatEncR,
	"H_floatT":      h.S_floatT,
	"H_floatTail":   h.S_floatTail,
	"H_generic":     h.S_generic,
	"H_genericDeep": h.S_genericDeep,
	"H_genericGen":  h.S_genericGen,
	"H_genericHuge": h.S_genericHuge,
	"H_genericT":    h.S_genericT,
	"H_genericW":    h.S_genericW,
	"H_genericWide": h.S_genericWide,
	"H_int":         h.S_int,
	"H_intD":        h.S_intD,
	"H_intEnc":      h.S_intEnc,
	"H_intL":        h.S_intL,
	"H_intRound":    h.S_intRound,
	"H_intTail":     h.S_intTail,
	"H_keepEnc":     h.S_keepEnc,
	"H_keepLen":     h.S_keepLen,
	"H_long":        h.S_long,
	"H_ops":         h.S_ops,
	"H_optDec":      h.S_optDec,
	"H_optEnc":      h.S_optEnc,
	"H_par":         h.S_par,
	"H_quoted":      h.S_quoted,
	"H_raw":         h.S_raw,
	"H_rawHuge":     h.S_rawHuge,
	"H_rawIn":       h.S_rawIn,
	"H_rawLong":     h.S_rawLong,
	"H_rawT":        h.S_rawT,
	"H_reuse":       h.S_reuse,
	"H_reuseCont":   h.S_reuseCont,
	"H_reuseT":      h.S_reuseT,
	"H_stdReader":   h.S_stdReader,
	"H_str":         h.S_str,
	"H_strAny":      h.S_strAny,
	"H_strEnc":      h.S_strEnc,
	"H_strEncHuge":  h.S_strEncHuge,
	"H_strEncT":     h.S_strEncT,
	"H_strHuge":     h.S_strHuge,
	"H_strLong":     h.S_strLong,
	"H_strRound":    h.S_strRound,
	"H_strT":        h.S_strT,
	"H_stream":      h.S_stream,
	"H_streamB":     h.S_streamB,
	"H_streamFail":  h.S_streamFail,
	"H_streamFailN": h.S_streamFailN,
	"H_streamHuge":  h.S_streamHuge,
	"H_streamT":     h.S_streamT,
	"H_streamW":     h.S_streamW,
	"H_struct":      h.S_struct,
	"H_struct2":     h.S_struct2,
	"H_structDec":   h.S_structDec,
	"H_structEnc":   h.S_structEnc,
	"H_structN":     h.S_structN,
	"H_structT":     h.S_structT,
	"H_zoo":         h.S_zoo,
	"H_zooT":        h.S_zooT,
}
