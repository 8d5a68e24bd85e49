F='config/config.go'; C='config.go'; H='utils/helpers/config.go'; D='config/config_parse.go'; A='app.go'
V=[
('bug','C25','last separator',[(F,'''	parts := strings.SplitN(name, "::", 2)''','''	parts := strings.Split(name, "::")''')]),
('bug','C25','single colon',[(F,'''	parts := strings.SplitN(name, "::", 2)''','''	parts := strings.SplitN(name, ":", 2)''')]),
('bug','C25','env after file',[(F,'''	envKey := convertToEnvKey(section, key)
	value = os.Getenv(envKey)
	if value != "" {
		return
	}

''',''),(F,'''	value = c.data[section][key]
	return
''','''	value = c.data[section][key]
	if value == "" {
		value = os.Getenv(convertToEnvKey(section, key))
	}
	return
''')]),
('bug','C25','env without section',[(F,'convertToEnvKey(section, key)\n	value','convertToEnvKey("", key)\n	value')]),
('bug','C25','parent only without section',[(F,'''		return
	}

	value = c.data[section][key]''','''		return ""
	}

	value = c.data[section][key]'''),(F,'''		if value == "" && c.parent != nil {''','''		if value == "" && c.parent != nil && section == defaultSectionName {''')]),
('bug','C25','parent of section only',[(F,'''	if _, ok := c.data[section]; !ok {
		// Section does not exist.
		return
	}

	value = c.data[section][key]
	return
}
''','''	if _, ok := c.data[section]; !ok {
		// Section does not exist.
		return
	}

	value = c.data[section][key]
	return
}
'''),(F,'value = c.parent.Find(name)','value = c.parent.Find(key)')]),
('bug','C25','env key hyphen',[(F,'	"-", "_",\n','')]),
('bug','C25','env key case',[(F,'strings.ToUpper(envKeyRepalcer.Replace(section + key))','envKeyRepalcer.Replace(section + strings.ToUpper(key))')]),
('bug','C25','env key joined',[(F,'section += "_"','section += "__"')]),
('bug','C25','fallback to default section',[(F,'''		// Section does not exist.
		return''','''		// Section does not exist.
		value = c.data[defaultSectionName][key]
		return''')]),
('bug','C25','default wins',[(C,'if value == "" && len(defaultValue) > 0','if len(defaultValue) > 0')]),
('bug','C25','default lost',[(C,'if value == "" && len(defaultValue) > 0','if value == "" && len(defaultValue) > 1')]),
('bug','C25','zero when missing',[(C,'''		if value == "" {
			return
		}

''','')]),
('bug','C25','one pointer',[(C,'for elm.Kind() == reflect.Ptr {','if elm.Kind() == reflect.Ptr {')]),
('bug','C25','pointer not new',[(C,'''				elm.Set(reflect.New(elm.Type().Elem()))
''','''				if elm.IsNil() {
					break
				}
''')]),
('bug','C25','invalid set',[(C,'if elm.CanSet() && val.IsValid() {','if elm.CanSet() {')]),
('bug','C25','zero kept',[(C,'if elm.CanSet() && val.IsValid() {','if elm.CanSet() && val.IsValid() && !val.IsZero() {')]),
('bug','C25','port name',[(A,'&s.Config.HttpPort, "http_port"','&s.Config.HttpPort, "port"')]),
('bug','C25','swapped setting',[(A,'''	s.Config.Bind(&s.Config.HttpAddr, "http_addr")
	s.Config.Bind(&s.Config.HttpPort, "http_port")''','''	s.Config.Bind(&s.Config.HttpPort, "http_addr")
	s.Config.Bind(&s.Config.HttpAddr, "http_port")''')]),
('bug','C25','setting missing',[(A,'	s.Config.Bind(&s.Config.RunPath, "run_path")\n','')]),
('bug','C25','link after read',[(A,'''	s.Config.setParent(c)
	s.Config.Bind(&s.Config.RunPath, "run_path")''','''	s.Config.Bind(&s.Config.RunPath, "run_path")
	s.Config.setParent(c)''')]),
('bug','C25','first file wins',[(H,'''			if last != nil {
				conf.SetParent(last)
			}
			last = conf''','''			if last != nil {
				last.SetParent(conf)
			} else {
				last = conf
			}''')]),
('bug','C25','chain lost',[(H,'''			if last != nil {
				conf.SetParent(last)''','''			if last != nil && n < skipNum {
				conf.SetParent(last)''')]),
('bug','C25','added files skipped',[(H,'if n < skipNum && maps[path] {','if n >= skipNum || maps[path] {')]),
('bug','C25','error silent',[(H,'if !os.IsNotExist(err) || n >= skipNum {','if n >= skipNum {')]),
('bug','C25','override before app',[(H,'''			filepath.Join(d, "override.ini"),
			filepath.Join(d, fmt.Sprintf("override.%s.ini", sp.Config.RunMode)),''','''			filepath.Join(d, "TMP.ini"),
			filepath.Join(d, fmt.Sprintf("TMP.%s.ini", sp.Config.RunMode)),'''),(H,'''			filepath.Join(d, app+".ini"),
			filepath.Join(d, app+fmt.Sprintf(".%s.ini", sp.Config.RunMode)),''','''			filepath.Join(d, "override.ini"),
			filepath.Join(d, fmt.Sprintf("override.%s.ini", sp.Config.RunMode)),'''),(H,'''			filepath.Join(d, "TMP.ini"),
			filepath.Join(d, fmt.Sprintf("TMP.%s.ini", sp.Config.RunMode)),''','''			filepath.Join(d, app+".ini"),
			filepath.Join(d, app+fmt.Sprintf(".%s.ini", sp.Config.RunMode)),''')]),
('bug','C25','mode before plain',[(H,'''			filepath.Join(d, app+".ini"),
			filepath.Join(d, app+fmt.Sprintf(".%s.ini", sp.Config.RunMode)),''','''			filepath.Join(d, app+fmt.Sprintf(".%s.ini", sp.Config.RunMode)),
			filepath.Join(d, app+".ini"),''')]),
('bug','C25','global instead',[(H,'	if last == nil {\n		last = config.Global','	if last == nil || len(addFiles) == 0 {\n		last = config.Global')]),
('bug','C25','section of parent',[(D,'sec+"::"+name','sec+":"+name')]),
('bug','C25','dash bound',[(D,'''		if len(name) == 0 || name == "-" {
			continue
		}

		config.Bind(fVal.Addr().Interface(), sec''','''		if len(name) == 0 {
			continue
		}

		config.Bind(fVal.Addr().Interface(), sec''')]),
('bug','C25','pointer fields skipped',[(D,'''		config.Bind(fVal.Addr().Interface(), name)''','''		if fVal.Kind() == reflect.Ptr && !fVal.IsNil() {
			continue
		}
		config.Bind(fVal.Addr().Interface(), name)''')]),
('bug','C25','tag of another',[(D,'fType := typ.Field(i)\n\n		if fVal','fType := typ.Field(0)\n\n		if fVal')]),
('ref','C25','split by index',[(F,'''	parts := strings.SplitN(name, "::", 2)
	if len(parts) > 0 {
		key = parts[len(parts)-1]
		if len(parts) > 1 {
			section = parts[0]
		}
	}
''','''	key = name
	if i := strings.Index(name, "::"); i >= 0 {
		section, key = name[:i], name[i+2:]
	}
''')]),
('ref','C25','split two',[(F,'''	if len(parts) > 0 {
		key = parts[len(parts)-1]
		if len(parts) > 1 {
			section = parts[0]
		}
	}
''','''	if len(parts) == 2 {
		section, key = parts[0], parts[1]
	} else {
		key = parts[0]
	}
''')]),
('ref','C25','no defer',[(F,'''	defer func() {
		// if current not exist fall back to parent
		if value == "" && c.parent != nil {
			value = c.parent.Find(name)
		}
	}()

''',''),(F,'''	if _, ok := c.data[section]; !ok {
		// Section does not exist.
		return
	}

	value = c.data[section][key]
	return
''','''	if value = c.data[section][key]; value == "" && c.parent != nil {
		return c.parent.Find(name)
	}
	return
''')]),
('ref','C25','helper split',[(F,'''	parts := strings.SplitN(name, "::", 2)
	if len(parts) > 0 {
		key = parts[len(parts)-1]
		if len(parts) > 1 {
			section = parts[0]
		}
	}
''','''	section, key = splitName(name)
'''),(F,'func (c *config) setValue(','''func splitName(name string) (section, key string) {
	parts := strings.SplitN(name, "::", 2)
	if len(parts) < 2 {
		return "", name
	}
	return parts[0], parts[1]
}

func (c *config) setValue(''')]),
('ref','C25','env helper',[(F,'''	envKey := convertToEnvKey(section, key)
	value = os.Getenv(envKey)
	if value != "" {
		return
	}
''','''	if v := os.Getenv(convertToEnvKey(section, key)); len(v) > 0 {
		return v
	}
''')]),
('ref','C25','upper first',[(F,'strings.ToUpper(envKeyRepalcer.Replace(section + key))','envKeyRepalcer.Replace(strings.ToUpper(section + key))')]),
('ref','C25','default inverted',[(C,'''	if c.Configer != nil {
		value := c.Configer.Find(name)
		if value == "" && len(defaultValue) > 0 {
			return defaultValue[0]
		}
		return value
	}
	if len''','''	if c.Configer != nil {
		if value := c.Configer.Find(name); value != "" {
			return value
		}
	}
	if len''')]),
('ref','C25','bind early',[(C,'	if c.Configer != nil {\n		val := reflect','	if c.Configer == nil {\n		return\n	}\n	{\n		val := reflect')]),
('ref','C25','bind helper',[(C,'''			for elm.Kind() == reflect.Ptr {
				elm.Set(reflect.New(elm.Type().Elem()))
				elm = elm.Elem()
			}
			elm.Set(val)''','''			setDeep(elm, val)'''),(C,'func (c *Config) setParent','''func setDeep(elm, val reflect.Value) {
	for elm.Kind() == reflect.Ptr {
		p := reflect.New(elm.Type().Elem())
		elm.Set(p)
		elm = p.Elem()
	}
	elm.Set(val)
}

func (c *Config) setParent''')]),
('ref','C25','settings reordered',[(A,'''	s.Config.Bind(&s.Config.RunPath, "run_path")
	s.Config.Bind(&s.Config.RunMode, "run_mode")
	s.Config.Bind(&s.Config.HttpAddr, "http_addr")''','''	conf := s.Config
	conf.Bind(&conf.HttpAddr, "http_addr")
	conf.Bind(&conf.RunMode, "run_mode")
	conf.Bind(&conf.RunPath, "run_path")''')]),
('ref','C25','files helper',[(H,'''		files = append(files, []string{
			filepath.Join(d, "default.ini"),
			filepath.Join(d, fmt.Sprintf("default.%s.ini", sp.Config.RunMode)),
		}...)''','''		files = append(files, filepath.Join(d, "default.ini"))
		files = append(files, filepath.Join(d, fmt.Sprintf("default.%s.ini", sp.Config.RunMode)))''')]),
('ref','C25','files per name',[(H,'''		files = append(files, []string{
			filepath.Join(d, "default.ini"),
			filepath.Join(d, fmt.Sprintf("default.%s.ini", sp.Config.RunMode)),
		}...)''','''		files = append(files, iniFiles(d, "default", sp.Config.RunMode)...)'''),(H,'''		files = append(files, []string{
			filepath.Join(d, "override.ini"),
			filepath.Join(d, fmt.Sprintf("override.%s.ini", sp.Config.RunMode)),
		}...)''','''		files = append(files, iniFiles(d, "override", sp.Config.RunMode)...)'''),(H,'func UseGlobalLogger','''func iniFiles(dir, name string, mode strip.Mode) []string {
	return []string{
		filepath.Join(dir, name+".ini"),
		filepath.Join(dir, fmt.Sprintf("%s.%s.ini", name, mode)),
	}
}

func UseGlobalLogger''')]),
('ref','C25','load inverted',[(H,'''		if err != nil {
			if !os.IsNotExist(err) || n >= skipNum {
				sp.Logger().Errorf("%s load err: %v", path, err)
			}
		} else {
			if last != nil {
				conf.SetParent(last)
			}
			last = conf
			sp.Logger().Infof("%s load success", path)
		}''','''		if err != nil {
			if os.IsNotExist(err) && n < skipNum {
				continue
			}
			sp.Logger().Errorf("%s load err: %v", path, err)
			continue
		}
		sp.Logger().Infof("%s load success", path)
		if last != nil {
			conf.SetParent(last)
		}
		last = conf''')]),
('ref','C25','load helper',[(H,'''	maps := make(map[string]bool, len(files))
	var last config.Configer
	for n, path''','''	last := loadAll(sp, files, skipNum)
	if last == nil {
		last = config.Global
	}

	conf = last
	sp.ImportConfig(last)
	config.Decode(sp.Config, env)
	return
}

func loadAll(sp *strip.Strip, files []string, skipNum int) (last config.Configer) {
	maps := make(map[string]bool, len(files))
	for n, path'''),(H,'''	if last == nil {
		last = config.Global
	}

	conf = last
	sp.ImportConfig(last)
	config.Decode(sp.Config, env)
	return
}

func UseGlobal''','''	return
}

func UseGlobal''')]),
('ref','C25','decode helper',[(D,'''		name := fType.Tag.Get("conf")
		if len(name) == 0 || name == "-" {
			continue
		}

		config.Bind(fVal.Addr().Interface(), sec''','''		name, ok := tagName(fType)
		if !ok {
			continue
		}

		config.Bind(fVal.Addr().Interface(), sec'''),(D,'func parseSection','''func tagName(f reflect.StructField) (string, bool) {
	name := f.Tag.Get("conf")
	if name == "" || name == "-" {
		return "", false
	}
	return name, true
}

func parseSection''')]),
('ref','C25','decode switch',[(D,'''		if fVal.Kind() == reflect.Struct {
			parseSection(config, fVal, name)
			continue
		}

		config.Bind(fVal.Addr().Interface(), name)''','''		if fVal.Kind() != reflect.Struct {
			config.Bind(fVal.Addr().Interface(), name)
		} else {
			parseSection(config, fVal, name)
		}''')]),
]
