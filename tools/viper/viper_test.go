package config

// Compares the stand-in for viper with the real one, on files with values of every type for every
// option (also on top of a previous file), and the conversion of sizes on many texts.

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"testing"

	"github.com/IfanTsai/metis/verif/vviper"
	"github.com/spf13/viper"
)

func TestViper(t *testing.T) {
	file := filepath.Join(t.TempDir(), "c.toml")
	values := []any{"", "a", "12", "-3", "0x10", "010", "true", "maybe", "1.5", int64(0), int64(1), int64(-1), int64(70000), int64(1) << 40, true, false, 1.5, -2.0}
	text := func(v any) string {
		if s, ok := v.(string); ok {
			return fmt.Sprintf("%q", s)
		}
		if f, ok := v.(float64); ok {
			return fmt.Sprintf("%.2f", f)
		}
		return fmt.Sprint(v)
	}
	ct := reflect.TypeOf(Config{})
	n := 0
	real := viper.New()
	real.SetConfigFile(file)
	real.SetConfigType("toml")
	vviper.Path = file
	fake := vviper.New()
	fake.SetConfigFile(file)
	fake.SetConfigType("toml")
	for i := 0; i < ct.NumField(); i++ {
		name := ct.Field(i).Tag.Get("mapstructure")
		if name == "" {
			continue
		}
		for _, v := range values {
			if err := os.WriteFile(file, []byte(name+" = "+text(v)+"\n"), 0o600); err != nil {
				t.Fatal(err)
			}
			if err := real.ReadInConfig(); err != nil {
				t.Fatal(name, v, err)
			}
			vviper.File = map[string]any{name: v}
			if err := fake.ReadInConfig(); err != nil {
				t.Fatal(name, v, err)
			}
			for _, start := range []Config{{}, {"h", 9, "f", "l", 9, "p", true, "a", "s", 9, 9}} {
				a, b := start, start
				e1, e2 := real.Unmarshal(&a), fake.Unmarshal(&b)
				if (e1 == nil) != (e2 == nil) {
					t.Errorf("%s = %v: %v, %v", name, text(v), e1, e2)
				} else if a != b {
					t.Errorf("%s = %v: %v, %v", name, text(v), a, b)
				}
				n++
			}
			for _, g := range [][2]any{
				{real.GetString(name), fake.GetString(name)}, {real.GetBool(name), fake.GetBool(name)}, {real.GetInt(name), fake.GetInt(name)},
				{real.GetUint(name), fake.GetUint(name)}, {real.GetSizeInBytes(name), fake.GetSizeInBytes(name)}, {real.IsSet(name), fake.IsSet(name)},
				{real.GetFloat64(name), fake.GetFloat64(name)}, {real.GetUint16(name), fake.GetUint16(name)}, {real.GetInt64(name), fake.GetInt64(name)},
			} {
				if g[0] != g[1] {
					t.Errorf("%s = %v as %T: %v, %v", name, text(v), g[0], g[0], g[1])
				}
				n++
			}
		}
	}
	for _, d := range []string{"", "0", "1", "64", "100", "007", "1.5", "-1", "x"} {
		for _, u := range []string{"", "b", "B", "k", "kb", "KB", "Kb", " mb", "mb", "MB", "gb", "g", "tb", " "} {
			real.Set("size", d+u)
			fake.Set("size", d+u)
			if a, b := real.GetSizeInBytes("size"), fake.GetSizeInBytes("size"); a != b {
				t.Errorf("size %q: %v, %v", d+u, a, b)
			}
			n++
		}
	}
	t.Log(n, "comparisons")
}
