package main

import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

var (
	timeType   = reflect.TypeOf(time.Time{})
	condType   = reflect.TypeOf(types.SoqlCondition{})
	metaType   = reflect.TypeOf(types.SoqlQueryMeta{})
	fieldType  = reflect.TypeOf(types.SoqlFieldInfo_Field)
	opcodeType = reflect.TypeOf(types.SoqlConditionOpcode_Noop)
)

// dumper writes a canonical text of everything a caller can see.
type dumper struct {
	b       strings.Builder
	persist bool // only what the JSON form carries
	fixed   bool // only what is in carried
	ptrs    map[unsafe.Pointer]int
}

// dump is the canonical text of a value without the compile date and the
// elapsed time; with persist, only of what the JSON form carries.
func dump(v interface{}, persist bool) string {
	d := dumper{persist: persist, ptrs: map[unsafe.Pointer]int{}}
	d.val(reflect.ValueOf(v))
	return d.b.String()
}

// persistent is the text of what the JSON form carries.
func persistent(v interface{}) string {
	d := dumper{persist: true, fixed: proc.Fixed, ptrs: map[unsafe.Pointer]int{}}
	d.val(reflect.ValueOf(v))
	return d.b.String()
}

func digest(s string) string {
	h := fnv.New128a()
	h.Write([]byte(s))
	return hex.EncodeToString(h.Sum(nil))
}

func (d *dumper) val(v reflect.Value) {
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	t := v.Type()
	if t == timeType {
		if !v.CanInterface() {
			d.b.WriteString("time?")
			return
		}
		tm := v.Interface().(time.Time)
		_, off := tm.Zone()
		fmt.Fprintf(&d.b, "time(%s,%d", tm.Format(time.RFC3339Nano), off)
		if !d.persist {
			d.b.WriteString("," + tm.Location().String())
		}
		d.b.WriteString(")")
		return
	}
	if d.persist { // numbers that stand for names may differ between versions
		name := ""
		switch t {
		case fieldType:
			name = fieldTypes[types.SoqlFieldInfoType(v.Int())]
		case opcodeType:
			name = opcodes[types.SoqlConditionOpcode(v.Int())]
		}
		if name != "" {
			d.b.WriteString(name)
			return
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		d.b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		d.b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.String:
		d.b.WriteString(strconv.Quote(v.String()))
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.b.WriteString("<" + v.Elem().Type().String() + ">")
		d.val(v.Elem())
	case reflect.Pointer:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if !d.persist {
			p := v.UnsafePointer()
			if n, ok := d.ptrs[p]; ok {
				fmt.Fprintf(&d.b, "@%d", n)
				return
			}
			n := len(d.ptrs) + 1
			d.ptrs[p] = n
			fmt.Fprintf(&d.b, "&%d=", n)
		} else {
			d.b.WriteString("&")
		}
		d.val(v.Elem())
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(&d.b, "x%x", v.Bytes())
			return
		}
		d.b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.b.WriteString(" ")
			}
			d.val(v.Index(i))
		}
		d.b.WriteString("]")
	case reflect.Map:
		var ks []string
		m := map[string]reflect.Value{}
		it := v.MapRange()
		for it.Next() {
			kd := dumper{persist: d.persist, fixed: d.fixed}
			kd.val(it.Key())
			k := kd.b.String()
			if it.Key().Kind() == reflect.Int {
				k = fmt.Sprintf("%020d", it.Key().Int())
			}
			ks = append(ks, k)
			m[k] = it.Value()
		}
		sort.Strings(ks)
		d.b.WriteString("map{")
		for i, k := range ks {
			if i > 0 {
				d.b.WriteString(" ")
			}
			d.b.WriteString(k + ":")
			d.val(m[k])
		}
		d.b.WriteString("}")
	case reflect.Struct:
		d.b.WriteString("{")
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() {
				continue
			}
			if d.persist {
				if (d.fixed || f.Tag.Get("json") == "-") && !carried[t.Name()+"."+f.Name] {
					continue
				}
				if t == condType && f.Name == "Value" && v.FieldByName("Opcode").Int() != int64(types.SoqlConditionOpcode_FieldInfo) {
					continue
				}
			}
			if t == metaType && (f.Name == "Date" || f.Name == "ElapsedTime") {
				continue
			}
			if fv := v.Field(i); fv.IsZero() || (fv.Kind() == reflect.Slice || fv.Kind() == reflect.Map) && fv.Len() == 0 {
				continue
			}
			d.b.WriteString(f.Name + ":")
			d.val(v.Field(i))
			d.b.WriteString(" ")
		}
		d.b.WriteString("}")
	default:
		d.b.WriteString("?" + v.Kind().String())
	}
}

// carried are the fields the JSON form is meant to carry, whatever their tags
// now say. (Meta.Date and Meta.ElapsedTime are compared apart.)
var carried = map[string]bool{
	"SoqlQueryHint.Name": true, "SoqlQueryHint.Value": true,
	"SoqlFieldInfo.Type": true, "SoqlFieldInfo.Name": true, "SoqlFieldInfo.Value": true, "SoqlFieldInfo.AliasName": true, "SoqlFieldInfo.Parameters": true, "SoqlFieldInfo.SubQuery": true, "SoqlFieldInfo.NotSelected": true, "SoqlFieldInfo.Aggregated": true, "SoqlFieldInfo.Hints": true, "SoqlFieldInfo.ColumnId": true, "SoqlFieldInfo.ColIndex": true, "SoqlFieldInfo.ViewId": true, "SoqlFieldInfo.Key": true,
	"SoqlListItem.Type": true, "SoqlListItem.Value": true,
	"SoqlDateTimeLiteralName.Name": true, "SoqlDateTimeLiteralName.N": true,
	"SoqlObjectInfo.Name": true, "SoqlObjectInfo.AliasName": true, "SoqlObjectInfo.HasConditions": true, "SoqlObjectInfo.InnerJoin": true, "SoqlObjectInfo.Hints": true, "SoqlObjectInfo.PerObjectQuery": true, "SoqlObjectInfo.ViewId": true, "SoqlObjectInfo.ParentViewId": true, "SoqlObjectInfo.Key": true,
	"SoqlCondition.Opcode": true, "SoqlCondition.Value": true,
	"SoqlOrderByInfo.Field": true, "SoqlOrderByInfo.Desc": true, "SoqlOrderByInfo.NullsLast": true,
	"SoqlOffsetAndLimitClause.Offset": true, "SoqlOffsetAndLimitClause.Limit": true, "SoqlOffsetAndLimitClause.OffsetParamName": true, "SoqlOffsetAndLimitClause.LimitParamName": true,
	"SoqlForClause.View": true, "SoqlForClause.Reference": true, "SoqlForClause.Update": true, "SoqlForClause.UpdateTracking": true, "SoqlForClause.UpdateViewstat": true,
	"SoqlViewGraphLeaf.Name": true, "SoqlViewGraphLeaf.ParentViewId": true, "SoqlViewGraphLeaf.QueryId": true, "SoqlViewGraphLeaf.Depth": true, "SoqlViewGraphLeaf.QueryDepth": true, "SoqlViewGraphLeaf.Many": true, "SoqlViewGraphLeaf.InnerJoin": true, "SoqlViewGraphLeaf.NonResult": true,
	"SoqlQueryGraphLeaf.ParentQueryId": true, "SoqlQueryGraphLeaf.Depth": true, "SoqlQueryGraphLeaf.IsConditional": true,
	"SoqlQueryMeta.Version": true, "SoqlQueryMeta.Date": true, "SoqlQueryMeta.ElapsedTime": true, "SoqlQueryMeta.Source": true, "SoqlQueryMeta.MaxQueryDepth": true, "SoqlQueryMeta.MaxViewDepth": true, "SoqlQueryMeta.NextQueryId": true, "SoqlQueryMeta.NextViewId": true, "SoqlQueryMeta.NextColumnId": true, "SoqlQueryMeta.QueryGraph": true, "SoqlQueryMeta.ViewGraph": true, "SoqlQueryMeta.Functions": true, "SoqlQueryMeta.Parameters": true, "SoqlQueryMeta.DateTimeLiterals": true,
	"SoqlQuery.Fields": true, "SoqlQuery.From": true, "SoqlQuery.Where": true, "SoqlQuery.GroupBy": true, "SoqlQuery.Having": true, "SoqlQuery.OrderBy": true, "SoqlQuery.OffsetAndLimit": true, "SoqlQuery.For": true, "SoqlQuery.IsAggregation": true, "SoqlQuery.IsCorelated": true, "SoqlQuery.PostProcessWhere": true, "SoqlQuery.QueryId": true, "SoqlQuery.Meta": true,
}

// region is a piece of mutable memory reachable from a result.
type region struct {
	lo, hi uintptr
	path   string
	owner  int
}

// regions lists the mutable memory reachable through exported fields.
func regions(v interface{}, owner int) []region {
	var out []region
	seen := map[[2]uintptr]bool{}
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		if !v.IsValid() || v.Type() == timeType {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), path)
			}
		case reflect.Pointer:
			if v.IsNil() || v.Type().Elem().Size() == 0 {
				return
			}
			p := uintptr(v.UnsafePointer())
			k := [2]uintptr{p, p + v.Type().Elem().Size()}
			if seen[k] {
				return
			}
			seen[k] = true
			out = append(out, region{k[0], k[1], path, owner})
			walk(v.Elem(), path)
		case reflect.Slice:
			if v.IsNil() || v.Cap() == 0 || v.Type().Elem().Size() == 0 {
				return
			}
			p := uintptr(v.UnsafePointer())
			k := [2]uintptr{p, p + uintptr(v.Cap())*v.Type().Elem().Size()}
			if !seen[k] {
				seen[k] = true
				out = append(out, region{k[0], k[1], path, owner})
			} else if v.Len() > 0 {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), path+"["+strconv.Itoa(i)+"]")
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			p := uintptr(v.UnsafePointer())
			k := [2]uintptr{p, p + 8}
			if seen[k] {
				return
			}
			seen[k] = true
			out = append(out, region{k[0], k[1], path, owner})
			it := v.MapRange()
			for it.Next() {
				walk(it.Value(), path+"{}")
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.IsExported() {
					walk(v.Field(i), path+"."+f.Name)
				}
			}
		}
	}
	walk(reflect.ValueOf(v), "result")
	return out
}

// parts lists the pieces of a query that its caller may keep without the rest:
// what its fields lead to, in a fixed order.
func parts(q *types.SoqlQuery) []interface{} {
	var out []interface{}
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, n int)
	walk = func(v reflect.Value, n int) {
		if !v.IsValid() || v.Type() == timeType || n > 12 {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			walk(v.Elem(), n+1)
		case reflect.Pointer, reflect.Slice, reflect.Map:
			if v.IsNil() || seen[v.Pointer()] || v.Kind() != reflect.Pointer && v.Len() == 0 {
				return
			}
			seen[v.Pointer()] = true
			if n > 1 {
				out = append(out, v.Interface())
			}
			switch v.Kind() {
			case reflect.Pointer:
				walk(v.Elem(), n+1)
			case reflect.Slice:
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), n+1)
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i), n+1)
				}
			}
		}
	}
	walk(reflect.ValueOf(q), 0)
	return out
}

// overlaps reports memory shared between different owners.
func overlaps(rs []region) []string {
	sort.Slice(rs, func(i, j int) bool {
		if rs[i].lo != rs[j].lo {
			return rs[i].lo < rs[j].lo
		}
		return rs[i].owner < rs[j].owner
	})
	var out []string
	said := map[string]bool{}
	// Keep the furthest-reaching region of each of the two most recent owners.
	var far []region
	for _, r := range rs {
		for _, f := range far {
			if f.owner != r.owner && f.hi > r.lo {
				s := fmt.Sprintf("%d:%s and %d:%s", f.owner, f.path, r.owner, r.path)
				if !said[s] && len(out) < 20 {
					said[s] = true
					out = append(out, s)
				}
			}
		}
		upd := false
		for i := range far {
			if far[i].owner == r.owner {
				if r.hi > far[i].hi {
					far[i] = r
				}
				upd = true
			}
		}
		if !upd {
			keep := far[:0]
			for _, f := range far {
				if f.hi > r.lo {
					keep = append(keep, f)
				}
			}
			far = append(keep, r)
		}
	}
	return out
}

// scribble overwrites everything a caller can reach and modify.
func scribble(root interface{}, tag int) {
	seen := map[[2]uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			return
		}
		if v.Type() == timeType {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(int64(tag), 0)))
			}
			return
		}
		switch v.Kind() {
		case reflect.Bool:
			if v.CanSet() {
				v.SetBool(!v.Bool())
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if v.CanSet() {
				v.SetInt(v.Int() + 1 + int64(tag%50))
			}
		case reflect.Uint8:
			if v.CanSet() {
				v.SetUint(v.Uint() ^ 0x5a)
			}
		case reflect.Float64:
			if v.CanSet() {
				v.SetFloat(v.Float() + 1)
			}
		case reflect.String:
			if v.CanSet() {
				v.SetString("scribbled" + strconv.Itoa(tag) + v.String())
			}
		case reflect.Interface:
			if v.IsNil() {
				return
			}
			walk(v.Elem()) // through pointers, slices and maps inside
			if v.CanSet() && v.NumMethod() == 0 {
				v.Set(reflect.ValueOf("scribbled" + strconv.Itoa(tag)))
			}
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			p := uintptr(v.UnsafePointer())
			k := [2]uintptr{p, v.Type().Elem().Size()}
			if seen[k] {
				return
			}
			seen[k] = true
			walk(v.Elem())
		case reflect.Slice:
			if v.IsNil() || v.Cap() == 0 {
				return
			}
			p := uintptr(v.UnsafePointer())
			k := [2]uintptr{p, uintptr(v.Cap()) * v.Type().Elem().Size()}
			if seen[k] {
				return
			}
			seen[k] = true
			full := v.Slice3(0, v.Cap(), v.Cap())
			for i := 0; i < full.Len(); i++ {
				walk(full.Index(i))
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			k := [2]uintptr{uintptr(v.UnsafePointer()), 1}
			if seen[k] {
				return
			}
			seen[k] = true
			keys := v.MapKeys()
			sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
			for _, mk := range keys {
				walk(v.MapIndex(mk))
			}
			if len(keys) > 0 {
				v.SetMapIndex(keys[0], reflect.Value{})
			}
			nk := reflect.New(v.Type().Key()).Elem()
			switch nk.Kind() {
			case reflect.String:
				nk.SetString("scribbled" + strconv.Itoa(tag))
			case reflect.Int:
				nk.SetInt(int64(100000 + tag))
			}
			v.SetMapIndex(nk, reflect.Zero(v.Type().Elem()))
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		}
	}
	walk(reflect.ValueOf(root))
}

var fieldTypes = map[types.SoqlFieldInfoType]string{
	types.SoqlFieldInfo_Field:                 "Field",
	types.SoqlFieldInfo_FieldSet:              "FieldSet",
	types.SoqlFieldInfo_Function:              "Function",
	types.SoqlFieldInfo_SubQuery:              "SubQuery",
	types.SoqlFieldInfo_Literal_Null:          "Literal_Null",
	types.SoqlFieldInfo_Literal_Int:           "Literal_Int",
	types.SoqlFieldInfo_Literal_Float:         "Literal_Float",
	types.SoqlFieldInfo_Literal_Bool:          "Literal_Bool",
	types.SoqlFieldInfo_Literal_String:        "Literal_String",
	types.SoqlFieldInfo_Literal_Blob:          "Literal_Blob",
	types.SoqlFieldInfo_Literal_Date:          "Literal_Date",
	types.SoqlFieldInfo_Literal_DateTime:      "Literal_DateTime",
	types.SoqlFieldInfo_Literal_Time:          "Literal_Time",
	types.SoqlFieldInfo_Literal_DateTimeRange: "Literal_DateTimeRange",
	types.SoqlFieldInfo_Literal_List:          "Literal_List",
	types.SoqlFieldInfo_ParameterizedValue:    "ParameterizedValue",
	types.SoqlFieldInfo_DateTimeLiteralName:   "DateTimeLiteralName",
}

var opcodes = map[types.SoqlConditionOpcode]string{
	types.SoqlConditionOpcode_Noop:      "Noop",
	types.SoqlConditionOpcode_Unknown:   "Unknown",
	types.SoqlConditionOpcode_FieldInfo: "FieldInfo",
	types.SoqlConditionOpcode_Not:       "Not",
	types.SoqlConditionOpcode_And:       "And",
	types.SoqlConditionOpcode_Or:        "Or",
	types.SoqlConditionOpcode_Eq:        "Eq",
	types.SoqlConditionOpcode_NotEq:     "NotEq",
	types.SoqlConditionOpcode_Lt:        "Lt",
	types.SoqlConditionOpcode_Le:        "Le",
	types.SoqlConditionOpcode_Gt:        "Gt",
	types.SoqlConditionOpcode_Ge:        "Ge",
	types.SoqlConditionOpcode_Like:      "Like",
	types.SoqlConditionOpcode_NotLike:   "NotLike",
	types.SoqlConditionOpcode_In:        "In",
	types.SoqlConditionOpcode_NotIn:     "NotIn",
	types.SoqlConditionOpcode_Includes:  "Includes",
	types.SoqlConditionOpcode_Excludes:  "Excludes",
}
