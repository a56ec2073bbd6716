package config

import (
	"strconv"

	rt "github.com/IfanTsai/metis/verif/rt"
	viper "github.com/IfanTsai/metis/verif/vviper"
)

// vConf is what a configuration has to be; the fields of Config may have other types.
type vConf struct {
	Host, LogFilepath, LogLevel, RequirePassword, AofFilename, AofFsync string
	Port, DatabaseNum, AofRewritePercent, AofRewriteMinSize             int64
	AofEnable                                                           bool
}

func vNum[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](v T) int64 {
	return int64(v)
}

var vOptions = []string{"bind", "port", "logfile", "loglevel", "databases", "requirepass", "appendonly", "appendfilename", "appendfsync", "auto-aof-rewrite-percentage", "auto-aof-rewrite-min-size"}

// vFile is a file with arbitrary values of all options and what the configuration has to be.
func vFile(name string, digits int) (map[string]any, vConf) {
	text := func(what string, pre string) string {
		return pre + string([]byte{rt.Byte(name + what), rt.Byte(name + what)})
	}
	var c vConf
	c.Host = text("bind", "h")
	port := rt.Int(name+"port", 0, 65535)
	c.Port = int64(port)
	c.LogFilepath = text("logfile", "")
	c.LogLevel = text("loglevel", "l")
	dbs := rt.I64(name + "databases")
	c.DatabaseNum = dbs
	c.RequirePassword = text("requirepass", "")
	c.AofEnable = rt.Bool(name + "appendonly")
	c.AofFilename = text("appendfilename", "f")
	c.AofFsync = text("appendfsync", "")
	percent := rt.I64(name + "percentage")
	rt.Assume(percent >= 0)
	c.AofRewritePercent = percent
	f := map[string]any{
		"bind": c.Host, "port": int64(port), "logfile": c.LogFilepath, "loglevel": c.LogLevel, "databases": dbs,
		"requirepass": c.RequirePassword, "appendonly": c.AofEnable, "appendfilename": c.AofFilename,
		"appendfsync": c.AofFsync, "auto-aof-rewrite-percentage": percent,
	}
	var min string
	min, c.AofRewriteMinSize = vSize(name, digits)
	f["auto-aof-rewrite-min-size"] = min
	return f, c
}

// vSize is a size as text: some digits and a unit.
func vSize(name string, digits int) (string, int64) {
	n := 1 + rt.Choose(name+"digits", digits)
	b := make([]byte, n)
	v := int64(0)
	for i := range b {
		lo := 1
		if i > 0 || digits == 1 {
			lo = 0
		}
		d := rt.Int(name+"digit", lo, 9)
		b[i] = '0' + byte(d)
		v = v*10 + int64(d)
	}
	units := 6
	if digits == 1 {
		units = 2
	}
	u := []struct {
		s string
		n int64
	}{{"mb", 1 << 20}, {"kb", 1 << 10}, {"gb", 1 << 30}, {"", 1}, {"MB", 1 << 20}, {" Kb", 1 << 10}}[rt.Choose(name+"unit", units)]
	return string(b) + u.s, v * u.n
}

func vAbsent(f map[string]any, c *vConf, option string) {
	delete(f, option)
	switch option {
	case "bind":
		c.Host = ""
	case "port":
		c.Port = 0
	case "logfile":
		c.LogFilepath = ""
	case "loglevel":
		c.LogLevel = ""
	case "databases":
		c.DatabaseNum = 0
	case "requirepass":
		c.RequirePassword = ""
	case "appendonly":
		c.AofEnable = false
	case "appendfilename":
		c.AofFilename = ""
	case "appendfsync":
		c.AofFsync = ""
	case "auto-aof-rewrite-percentage":
		c.AofRewritePercent = 0
	case "auto-aof-rewrite-min-size":
		c.AofRewriteMinSize = 0
	}
}

func vSame(when string, got *Config, want vConf) {
	rt.Assert(got.Host == want.Host, "the address is the one of the file "+when)
	rt.Assert(vNum(got.Port) == want.Port, "the port is the one of the file "+when)
	rt.Assert(got.LogFilepath == want.LogFilepath, "the log file is the one of the file "+when)
	rt.Assert(string(got.LogLevel) == want.LogLevel, "the log level is the one of the file "+when)
	rt.Assert(vNum(got.DatabaseNum) == want.DatabaseNum, "the number of databases is the one of the file "+when)
	rt.Assert(got.RequirePassword == want.RequirePassword, "the password is the one of the file "+when)
	rt.Assert(got.AofEnable == want.AofEnable, "appendonly is as in the file "+when)
	rt.Assert(got.AofFilename == want.AofFilename, "the name of the log is the one of the file "+when)
	rt.Assert(string(got.AofFsync) == want.AofFsync, "the sync policy is the one of the file "+when)
	rt.Assert(vNum(got.AofRewritePercent) == want.AofRewritePercent, "the growth percentage is the one of the file "+when)
	rt.Assert(vNum(got.AofRewriteMinSize) == want.AofRewriteMinSize, "the minimum size is the one of the file "+when)
	rt.Observe("config", got.Host, vNum(got.Port), vNum(got.DatabaseNum), got.AofEnable, string(got.AofFsync), vNum(got.AofRewritePercent), vNum(got.AofRewriteMinSize))
}

// vExits returns whether f ends the process.
func vExits(f func()) (exits bool) {
	defer func() {
		if r := recover(); r != nil {
			exits = true
		}
	}()
	f()
	return false
}

// a file with any values of all options (texts of 2 arbitrary bytes, any port, any 64-bit numbers, sizes of 1..3 digits without a unit or with one of kb, mb, gb in several spellings), or without one of them, or without any; loaded a second time
func VH_G01_start() {
	f, want := vFile("", 3)
	switch rt.Choose("absent", 3) {
	case 1:
		vAbsent(f, &want, vOptions[rt.Choose("option", len(vOptions))])
	case 2:
		f, want = map[string]any{}, vConf{}
	}
	viper.File, viper.Path = f, "/etc/metis.toml"
	cfg := LoadConfig("/etc/metis.toml", "toml")
	vSame("after the start", cfg, want)
	other, _ := vFile("other-", 1)
	viper.File = other
	again := LoadConfig("/etc/metis.toml", "toml")
	rt.Assert(again == cfg, "a second load returns the same configuration")
	vSame("after a second load", cfg, want)
	rt.Reach("end")
}

// a file whose values change (all of them arbitrary; sizes of a digit and mb or kb), one option disappearing from it or appearing; twice
func VH_G01_reload() {
	f, want := vFile("", 1)
	if rt.Choose("first", 2) == 1 {
		vAbsent(f, &want, vOptions[rt.Choose("option", len(vOptions))])
	}
	viper.File, viper.Path = f, "/etc/metis.toml"
	cfg := LoadConfig("/etc/metis.toml", "toml")
	f2, want2 := vFile("second-", 1)
	if rt.Choose("second", 2) == 1 {
		vAbsent(f2, &want2, vOptions[rt.Choose("option2", len(vOptions))])
	}
	viper.Change(f2, false)
	vSame("after a change", cfg, want2)
	if rt.Choose("back", 2) == 1 {
		viper.Change(f, false)
		vSame("after another change", cfg, want)
	}
	rt.Reach("end")
}

// a file that cannot be read, or with one option of a wrong type, at the start (the server does not run) or after a change (the configuration stays), followed by a good one
func VH_G01_invalid() {
	bad := func(f map[string]any) bool {
		switch rt.Choose("bad", 6) {
		case 0:
			return true
		case 1:
			f["port"] = "p" + string([]byte{rt.Byte("text")})
		case 2:
			f["databases"] = "many"
		case 3:
			f["appendonly"] = "maybe"
		case 4:
			f["auto-aof-rewrite-percentage"] = "x" + strconv.Itoa(rt.Choose("n", 3))
		case 5:
			f["bind"] = []any{"a"}
		}
		return false
	}
	f, want := vFile("", 1)
	viper.File, viper.Path = f, "/etc/metis.toml"
	if rt.Choose("when", 2) == 0 {
		viper.Broken = bad(f)
		rt.Assert(vExits(func() { LoadConfig("/etc/metis.toml", "toml") }), "the server does not start with an invalid file")
		rt.Reach("start")
		return
	}
	cfg := LoadConfig("/etc/metis.toml", "toml")
	f2, want2 := vFile("second-", 1)
	broken := bad(f2)
	rt.Assert(!vExits(func() { viper.Change(f2, broken) }), "an invalid change does not end the server")
	vSame("after an invalid change", cfg, want)
	good, wantGood := f2, want2
	good["port"], good["databases"], good["appendonly"], good["bind"] = int64(wantGood.Port), int64(wantGood.DatabaseNum), wantGood.AofEnable, wantGood.Host
	good["auto-aof-rewrite-percentage"] = int64(wantGood.AofRewritePercent)
	viper.Change(good, false)
	vSame("after a valid change", cfg, wantGood)
	rt.Reach("change")
}

// a file that does not exist, of an unknown type or name
func VH_G01_missing() {
	f, _ := vFile("", 1)
	viper.File, viper.Path = f, "/etc/metis.toml"
	name, typ := "/etc/metis.toml", "toml"
	if rt.Choose("what", 2) == 0 {
		name = "/etc/metis" + string([]byte{'a' + byte(rt.Choose("c", 3))}) + ".toml"
	} else {
		typ = []string{"tom", "txt"}[rt.Choose("type", 2)]
	}
	rt.Assert(vExits(func() { LoadConfig(name, typ) }), "the server does not start without its file")
	rt.Reach("end")
}
