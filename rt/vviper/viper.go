// Package vviper stands for viper: it reads the options of one file, which the harness gives as a
// map of what a parser makes of it (string, int64, bool, float64), converts them as mapstructure and
// cast do with weak typing, and tells about changes of the file.
package vviper

import (
	"errors"

	"strconv"
	"strings"
	"time"

	rt "github.com/IfanTsai/metis/verif/rt"
	vfsnotify "github.com/IfanTsai/metis/verif/vfsnotify"
	vos "github.com/IfanTsai/metis/verif/vos"
)

// File is the content of the file, Broken one that cannot be read or parsed; Path is the file's name.
var (
	File   map[string]any
	Broken bool
	Path   string
	Reads  int // times the file was read
)

type Viper struct {
	file, typ string
	values    map[string]any
	defaults  map[string]any
	over      map[string]any
	watching  bool
	onChange  func(vfsnotify.Event)
}

type DecoderConfigOption func(*struct{})

type ConfigFileNotFoundError struct{}

func (ConfigFileNotFoundError) Error() string { return "config file not found" }

type UnsupportedConfigError string

func (e UnsupportedConfigError) Error() string { return "unsupported config type " + string(e) }

var (
	v   = New()
	all []*Viper

	SupportedExts = []string{"json", "toml", "yaml", "yml", "properties", "props", "prop", "hcl", "tfvars", "dotenv", "env", "ini"}
)

func New() *Viper {
	n := &Viper{values: map[string]any{}, defaults: map[string]any{}, over: map[string]any{}}
	all = append(all, n)
	return n
}

func GetViper() *Viper { return v }

// Change makes the file what it is given; watchers notice.
func Change(file map[string]any, broken bool) {
	File, Broken = file, broken
	for _, x := range all {
		if !x.watching {
			continue
		}
		_ = x.ReadInConfig()
		if x.onChange != nil {
			x.onChange(vfsnotify.Event{Name: x.file, Op: vfsnotify.Write})
		}
	}
}

func (x *Viper) SetConfigFile(f string)                 { x.file = f }
func (x *Viper) SetConfigType(t string)                 { x.typ = t }
func (x *Viper) WatchConfig()                           { x.watching = true }
func (x *Viper) OnConfigChange(f func(vfsnotify.Event)) { x.onChange = f }
func (x *Viper) ConfigFileUsed() string                 { return x.file }
func (x *Viper) SetDefault(k string, val any)           { x.defaults[strings.ToLower(k)] = val }
func (x *Viper) Set(k string, val any)                  { x.over[strings.ToLower(k)] = val }

func (x *Viper) ReadInConfig() error {
	t := x.typ
	if t == "" {
		if i := strings.LastIndexByte(x.file, '.'); i >= 0 {
			t = x.file[i+1:]
		}
	}
	ok := false
	for _, e := range SupportedExts {
		if e == t {
			ok = true
		}
	}
	if !ok {
		return UnsupportedConfigError(t)
	}
	if x.file != Path {
		return &vos.PathError{Op: "open", Path: x.file, Err: vos.ErrNotExist}
	}
	Reads++
	if Broken {
		return errors.New("the file cannot be parsed")
	}
	n := map[string]any{}
	for k, val := range File {
		n[strings.ToLower(k)] = val
	}
	x.values = n
	return nil
}

func (x *Viper) Get(k string) any {
	k = strings.ToLower(k)
	if val, ok := x.over[k]; ok {
		return val
	}
	if val, ok := x.values[k]; ok {
		return val
	}
	return x.defaults[k]
}

func (x *Viper) IsSet(k string) bool    { return x.Get(k) != nil }
func (x *Viper) InConfig(k string) bool { _, ok := x.values[strings.ToLower(k)]; return ok }

func (x *Viper) AllKeys() []string {
	var r []string
	for _, m := range []map[string]any{x.over, x.values, x.defaults} {
		for k := range m {
			dup := false
			for _, o := range r {
				dup = dup || o == k
			}
			if !dup {
				r = append(r, k)
			}
		}
	}
	return r
}

func (x *Viper) AllSettings() map[string]any {
	m := map[string]any{}
	for _, k := range x.AllKeys() {
		m[k] = x.Get(k)
	}
	return m
}

func (x *Viper) Unmarshal(ptr any, _ ...DecoderConfigOption) error {
	var failed error
	keys := x.AllKeys()
	for i := 0; i < rt.NumField(ptr); i++ {
		name, squash := rt.FieldName(ptr, i), false
		if name[0] < 'A' || name[0] > 'Z' {
			continue
		}
		if tag := tagOf(rt.FieldTag(ptr, i), "mapstructure"); tag != "" {
			parts := strings.Split(tag, ",")
			if parts[0] == "-" {
				continue
			}
			for _, p := range parts[1:] {
				squash = squash || p == "squash"
			}
			if parts[0] != "" {
				name = parts[0]
			}
		}
		field := rt.FieldPtr(ptr, i)
		if squash {
			if err := x.Unmarshal(field); err != nil {
				failed = err
			}
			continue
		}
		for _, k := range keys {
			if strings.EqualFold(k, name) {
				if err := decode(x.Get(k), field); err != nil {
					failed = err
				}
				break
			}
		}
	}
	return failed
}

func (x *Viper) UnmarshalKey(k string, ptr any, _ ...DecoderConfigOption) error {
	if x.Get(k) == nil {
		return nil
	}
	return decode(x.Get(k), ptr)
}

func tagOf(tag, key string) string {
	i := strings.Index(tag, key+`:"`)
	if i < 0 {
		return ""
	}
	tag = tag[i+len(key)+2:]
	return tag[:strings.IndexByte(tag, '"')]
}

var errType = errors.New("unconvertible type")

func asInt(val any, bits int) (int64, error) {
	switch n := val.(type) {
	case int64:
		return n, nil
	case int:
		return int64(n), nil
	case uint:
		return int64(n), nil
	case float64:
		return int64(n), nil
	case bool:
		if n {
			return 1, nil
		}
		return 0, nil
	case string:
		if n == "" {
			n = "0"
		}
		return strconv.ParseInt(n, 0, bits)
	}
	return 0, errType
}

func asUint(val any, bits int) (uint64, error) {
	if s, ok := val.(string); ok {
		if s == "" {
			s = "0"
		}
		return strconv.ParseUint(s, 0, bits)
	}
	n, err := asInt(val, bits)
	return uint64(n), err
}

// decode is mapstructure's with WeaklyTypedInput, for the types a parser of files yields.
func decode(val any, ptr any) error {
	if val == nil {
		return nil
	}
	switch p := ptr.(type) {
	case *string:
		switch s := val.(type) {
		case string:
			*p = s
		case int64:
			*p = strconv.FormatInt(s, 10)
		case int:
			*p = strconv.Itoa(s)
		case bool:
			*p = "0"
			if s {
				*p = "1"
			}
		case float64:
			*p = strconv.FormatFloat(s, 'f', -1, 64)
		default:
			return errType
		}
	case *bool:
		switch b := val.(type) {
		case bool:
			*p = b
		case int64:
			*p = b != 0
		case int:
			*p = b != 0
		case float64:
			*p = b != 0
		case string:
			r, err := strconv.ParseBool(b)
			if err != nil && b != "" {
				return err
			}
			*p = r
		default:
			return errType
		}
	case *int:
		n, err := asInt(val, 64)
		if err != nil {
			return err
		}
		*p = int(n)
	case *int64:
		n, err := asInt(val, 64)
		if err != nil {
			return err
		}
		*p = n
	case *int32:
		n, err := asInt(val, 32)
		if err != nil {
			return err
		}
		*p = int32(n)
	case *int16:
		n, err := asInt(val, 16)
		if err != nil {
			return err
		}
		*p = int16(n)
	case *uint:
		n, err := asUint(val, 64)
		if err != nil {
			return err
		}
		*p = uint(n)
	case *uint64:
		n, err := asUint(val, 64)
		if err != nil {
			return err
		}
		*p = n
	case *uint32:
		n, err := asUint(val, 32)
		if err != nil {
			return err
		}
		*p = uint32(n)
	case *uint16:
		n, err := asUint(val, 16)
		if err != nil {
			return err
		}
		*p = uint16(n)
	case *int8:
		n, err := asInt(val, 8)
		if err != nil {
			return err
		}
		*p = int8(n)
	case *uint8:
		n, err := asUint(val, 8)
		if err != nil {
			return err
		}
		*p = uint8(n)
	case *float32:
		var f float64
		if err := decode(val, &f); err != nil {
			return err
		}
		*p = float32(f)
	case *any:
		*p = val
	case *float64:
		switch f := val.(type) {
		case float64:
			*p = f
		case int64:
			*p = float64(f)
		default:
			return errType
		}
	default:
		rt.Unsupported("a configuration field of this type")
	}
	return nil
}

// The getters convert as cast does: what does not convert is the zero value.
func (x *Viper) GetString(k string) string {
	var s string
	if val := x.Get(k); val != nil {
		if b, ok := val.(bool); ok {
			return strconv.FormatBool(b)
		}
		_ = decode(val, &s)
	}
	return s
}

func (x *Viper) GetBool(k string) bool {
	switch b := x.Get(k).(type) {
	case bool:
		return b
	case int:
		return b != 0
	case string:
		r, _ := strconv.ParseBool(b)
		return r
	}
	return false
}

func (x *Viper) GetInt64(k string) int64 {
	val := x.Get(k)
	if s, ok := val.(string); ok {
		return int64(toInt(s))
	}
	n, _ := asInt(val, 64)
	return n
}

func (x *Viper) GetInt(k string) int     { return int(x.GetInt64(k)) }
func (x *Viper) GetInt32(k string) int32 { return int32(x.GetInt64(k)) }

func (x *Viper) GetUint64(k string) uint64 {
	n := x.GetInt64(k)
	if n < 0 {
		return 0
	}
	return uint64(n)
}

func (x *Viper) GetUint(k string) uint     { return uint(x.GetUint64(k)) }
func (x *Viper) GetUint16(k string) uint16 { return uint16(x.GetUint64(k)) }
func (x *Viper) GetUint32(k string) uint32 { return uint32(x.GetUint64(k)) }
func (x *Viper) GetFloat64(k string) float64 {
	switch n := x.Get(k).(type) {
	case float64:
		return n
	case int64:
		return float64(n)
	case int:
		return float64(n)
	case bool:
		if n {
			return 1
		}
	case string:
		f, err := strconv.ParseFloat(n, 64)
		if err == nil {
			return f
		}
	}
	return 0
}

func (x *Viper) GetDuration(k string) time.Duration { return time.Duration(x.GetInt64(k)) }

func (x *Viper) GetSizeInBytes(k string) uint { return parseSizeInBytes(x.GetString(k)) }

// toInt is cast.ToInt of a string.
func toInt(s string) int {
	zero := false
	for i := len(s); i > 0; i-- {
		if s[i-1] == '.' {
			if zero {
				s = s[:i-1]
			}
		} else if s[i-1] == '0' {
			zero = true
			continue
		}
		break
	}
	n, err := strconv.ParseInt(s, 0, 0)
	if err != nil {
		return 0
	}
	return int(n)
}

// parseSizeInBytes is viper's.
func parseSizeInBytes(sizeStr string) uint {
	sizeStr = strings.TrimSpace(sizeStr)
	lastChar := len(sizeStr) - 1
	multiplier := uint(1)
	if lastChar > 0 {
		if sizeStr[lastChar] == 'b' || sizeStr[lastChar] == 'B' {
			if lastChar > 1 {
				switch sizeStr[lastChar-1] | 0x20 {
				case 'k':
					multiplier = 1 << 10
					sizeStr = strings.TrimSpace(sizeStr[:lastChar-1])
				case 'm':
					multiplier = 1 << 20
					sizeStr = strings.TrimSpace(sizeStr[:lastChar-1])
				case 'g':
					multiplier = 1 << 30
					sizeStr = strings.TrimSpace(sizeStr[:lastChar-1])
				default:
					multiplier = 1
					sizeStr = strings.TrimSpace(sizeStr[:lastChar])
				}
			}
		}
	}
	size := toInt(sizeStr)
	if size < 0 {
		size = 0
	}
	a := uint(size)
	c := a * multiplier
	if a > 1 && multiplier > 1 && c/multiplier != a {
		return 0
	}
	return c
}

func SetConfigFile(f string)                          { v.SetConfigFile(f) }
func SetConfigType(t string)                          { v.SetConfigType(t) }
func WatchConfig()                                    { v.WatchConfig() }
func OnConfigChange(f func(vfsnotify.Event))          { v.OnConfigChange(f) }
func ConfigFileUsed() string                          { return v.ConfigFileUsed() }
func SetDefault(k string, val any)                    { v.SetDefault(k, val) }
func Set(k string, val any)                           { v.Set(k, val) }
func ReadInConfig() error                             { return v.ReadInConfig() }
func Get(k string) any                                { return v.Get(k) }
func IsSet(k string) bool                             { return v.IsSet(k) }
func InConfig(k string) bool                          { return v.InConfig(k) }
func AllKeys() []string                               { return v.AllKeys() }
func AllSettings() map[string]any                     { return v.AllSettings() }
func Unmarshal(p any, o ...DecoderConfigOption) error { return v.Unmarshal(p, o...) }
func UnmarshalKey(k string, p any, o ...DecoderConfigOption) error {
	return v.UnmarshalKey(k, p, o...)
}
func GetString(k string) string          { return v.GetString(k) }
func GetBool(k string) bool              { return v.GetBool(k) }
func GetInt(k string) int                { return v.GetInt(k) }
func GetInt32(k string) int32            { return v.GetInt32(k) }
func GetInt64(k string) int64            { return v.GetInt64(k) }
func GetUint(k string) uint              { return v.GetUint(k) }
func GetUint16(k string) uint16          { return v.GetUint16(k) }
func GetUint32(k string) uint32          { return v.GetUint32(k) }
func GetUint64(k string) uint64          { return v.GetUint64(k) }
func GetFloat64(k string) float64        { return v.GetFloat64(k) }
func GetDuration(k string) time.Duration { return v.GetDuration(k) }
func GetSizeInBytes(k string) uint       { return v.GetSizeInBytes(k) }
