L = 'generator/languages/langc.py'; PA = 'generator/parser.py'; SH = 'generator/common/shared.py'; VA = 'generator/passes/validate.py'; CO = 'generator/passes/consolidate.py'

m('str-clamp-off', 'C01', L, 'uint32_t clampedLength = GRMIN(length, maxLength - 1);', 'uint32_t clampedLength = GRMIN(length, maxLength);')
m('str-skip-clamped', 'C01', L, '''        out[clampedLength] = 0;
    }
    buffer->index += sizeof(uint32_t) + length + 1;''', '''        out[clampedLength] = 0;
        buffer->index += sizeof(uint32_t) + clampedLength + 1;
        return;
    }
    buffer->index += sizeof(uint32_t) + length + 1;''')
m('str-max0', 'C01', L, 'if (maxLength > 0) {\n        uint32_t', 'if (maxLength > 1) {\n        uint32_t')
m('str-empty-noterm', 'C01', L, 'buffer->data[buffer->index + sizeof(uint32_t)] = 0;\n        buffer->index', 'buffer->index')
m('str-null-crash', 'C01', L, 'string != NULL ? (uint32_t)strlen(string) : 0', '(uint32_t)strlen(string)')
m('arr-out-min', 'C01', L, '* GRMIN(__count, {name}_count));', '* __count);')
m('arr-out-skip', 'C01', L, 'outfile.writeln(f"__buffer.index += sizeof({get_c_typename(service, typename)}) * __count;")', 'outfile.writeln(f"__buffer.index += sizeof({get_c_typename(service, typename)}) * GRMIN(__count, {name}_count);")')
m('struct-arr-skip-leak', 'C01', L, '        outfile.writeln(f"{struct_name}_destroy(&__skipped);")\n', '')
m('variant-prefix-ser', 'C01', L, 'write_struct_member_serializer(service, f"{member.get_name()}.", struct, entry, outfile)', 'write_struct_member_serializer(service, f"{member.get_name()}.", struct, member.get_entries()[0] if entry.get_typename() == member.get_entries()[-1].get_typename() and not service.typename_is_struct(entry.get_typename()) and not service.typename_is_struct(member.get_entries()[0].get_typename()) and entry.get_typename() != "string" and member.get_entries()[0].get_typename() != "string" else entry, outfile)')
m('variant-type-not-sent', 'C01', L, 'outfile.writeln(f"out->{name}_type = deserialize_uint8(buffer);")', 'outfile.writeln(f"out->{name}_type = deserialize_uint8(buffer) & 7;")')
m('variant-invalid-not-zero', 'C01 C15', L, '_{member.get_name().upper()}_INVALID = 0,")', '_{member.get_name().upper()}_INVALID = 1,")')
m('variant-clear-keeps-type', 'C01', L, '''    outfile.writeln(f"in->{variant.get_name()}_type = {get_scoped_name(struct).upper()}_{variant.get_name().upper()}_INVALID;")
''', '')
m('variant-set-nocopy', 'C01', L, '= {entry.get_name()} != NULL ? strdup({entry.get_name()}) : NULL;', '= (char*){entry.get_name()};')
m('variant-is-wrong', 'C01', L, 'return in->{variant.get_name()}_type == {get_variant_enum_name(struct, variant, entry)};', 'return in->{variant.get_name()}_type >= {get_variant_enum_name(struct, variant, entry)};')
m('add-no-init', 'C01', L, '''_init(&in->{member.get_name()}[in->{member.get_name()}_count + i]);''', '''_init(&in->{member.get_name()}[in->{member.get_name()}_count]);''')
m('get-add-one-less', 'C01', L, 'if (index >= in->{member.get_name()}_count) {{', 'if (index > in->{member.get_name()}_count) {{')
m('get-adds-too-many', 'C01', L, '(index - in->{member.get_name()}_count) + 1', 'index + 1')
m('add-malloc-count', 'C01', L, '* (in->{member.get_name()}_count + count));', '* count);')
m('destroy-skips-elements', 'C01', L, '_destroy(&{prefix}{member.get_name()}[__i]);', '_destroy(&{prefix}{member.get_name()}[0]);')
m('destroy-skips-string-in-variant', 'C01', L, '    elif member.get_typename() == "string":\n        outfile.writeln(f"if ({prefix}{member.get_name()}) {{")', '    elif member.get_typename() == "string" and prefix.count(".") == 0:\n        outfile.writeln(f"if ({prefix}{member.get_name()}) {{")')
m('copy-shallow-string', 'C01', L, '_name()} = strdup(in->{prefix}{member.get_name()});', '_name()} = in->{prefix}{member.get_name()};')
m('copy-count-missing', 'C01', L, '''        outfile.writeln(f"out->{prefix}{member.get_name()}_count = in->{prefix}{member.get_name()}_count;")
''', '')
m('copy-variant-type', 'C01', L, '''        outfile.writeln(f"out->{prefix}{member.get_name()}_type = in->{prefix}{member.get_name()}_type;")
''', '')
m('copy-arr-size', 'C01', L, 'memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, sizeof({get_c_typename(service, member.get_typename())}) *', 'memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, ')
m('copy-null-uninit', 'C01', L, '''_copy(&in->{prefix}{member.get_name()}[__i], &out->{prefix}{member.get_name()}[__i]);''', '''_copy(&in->{prefix}{member.get_name()}[0], &out->{prefix}{member.get_name()}[__i]);''')
m('type-uint-signed', 'C01', L, '        ["uint", "unsigned int"],\n        ["int", "int"],\n        ["string"', '        ["uint", "int"],\n        ["int", "int"],\n        ["string"')
m('type-ulong-32', 'C01', L, '        ["ulong", "size_t"],\n        ["uint", "unsigned int"],\n        ["int", "int"],\n        ["bool"', '        ["ulong", "unsigned int"],\n        ["uint", "unsigned int"],\n        ["int", "int"],\n        ["bool"')
m('type-int16-uns', 'C01', L, '        ["int16", "int16_t"],\n        ["uint32", "uint32_t"],\n        ["int32", "int32_t"],\n        ["uint64", "uint64_t"],\n        ["int64", "int64_t"],\n        ["long", "long"],\n        ["ulong", "size_t"],\n        ["uint", "unsigned int"],\n        ["int", "int"],\n        ["bool"', '        ["int16", "uint16_t"],\n        ["uint32", "uint32_t"],\n        ["int32", "int32_t"],\n        ["uint64", "uint64_t"],\n        ["int64", "int64_t"],\n        ["long", "long"],\n        ["ulong", "size_t"],\n        ["uint", "unsigned int"],\n        ["int", "int"],\n        ["bool"')
m('type-int64-narrow', 'C01', L, '        ["int64", "int64_t"],\n        ["long", "long"],\n        ["ulong", "size_t"],\n        ["uint", "unsigned int"],\n        ["int", "int"],\n        ["bool"', '        ["int64", "int32_t"],\n        ["long", "long"],\n        ["ulong", "size_t"],\n        ["uint", "unsigned int"],\n        ["int", "int"],\n        ["bool"')
m('bool-normalised', 'C01', L, '    elif service.typename_is_enum(member.get_typename()):\n        outfile.writeln(f"serialize_int(&__buffer, (int){member.get_name()});")', '    elif service.typename_is_enum(member.get_typename()):\n        outfile.writeln(f"serialize_int(&__buffer, (short){member.get_name()});")')
m('enum-struct-narrow', 'C01', L, 'serialize_int(buffer, (int)(in->{prefix}{member.get_name()}));', 'serialize_int(buffer, (unsigned short)(in->{prefix}{member.get_name()}));')
m('enum-arr', 'C01', L, 'outfile.writeln(f"__buffer.index += sizeof({get_c_typename(service, typename)}) * {name}_count;")', 'outfile.writeln(f"__buffer.index += {2 if service.typename_is_enum(typename) else 1} * sizeof({get_c_typename(service, typename)}) * {name}_count;")')
m('ser-count-u8', 'C01', L, 'outfile.writeln(f"serialize_uint32(&__buffer, {name}_count);")', 'outfile.writeln(f"serialize_uint32(&__buffer, (uint16_t){name}_count);")')
m('struct-count-u8', 'C01', L, 'outfile.writeln(f"serialize_uint32(buffer, in->{name}_count);")', 'outfile.writeln(f"serialize_uint32(buffer, (uint8_t)in->{name}_count);")')
m('flags-sync-always', 'C01 C02', L, 'return "MESSAGE_FLAG_ASYNC"', 'return "MESSAGE_FLAG_SYNC"')
m('resp-flag-event', 'C01', L, '    flags = "MESSAGE_FLAG_RESPONSE"\n', '    flags = "MESSAGE_FLAG_EVENT"\n')
m('status-leaks', 'C01', L, 'outfile.write("__status = gracht_client_status_finalize(client, &__buffer);\\n")', 'outfile.write("__status = __buffer.index ? GRACHT_MESSAGE_COMPLETED : gracht_client_status_finalize(client, &__buffer);\\n")')
m('status-error-as-ok', 'C01', L, 'outfile.writeln("if (__status != GRACHT_MESSAGE_COMPLETED) {")', 'outfile.writeln("if (__status < 0) {")')
m('unsub-id', 'C01', L, '        unsubscribe_fn = FunctionObject("unsubscribe", 1, [unsubscribe_arg], [])\n        control_service = ServiceObject(service.get_namespace(), 0, service.get_name(), [], [], [], [], [])\n        outfile.writeln', '        unsubscribe_fn = FunctionObject("unsubscribe", 0, [unsubscribe_arg], [])\n        control_service = ServiceObject(service.get_namespace(), 0, service.get_name(), [], [], [], [], [])\n        outfile.writeln')
m('sub-service-number', 'C01', L, '        subscribe_fn = FunctionObject("subscribe", 0, [subscribe_arg], [])\n        control_service = ServiceObject(service.get_namespace(), 0, service.get_name(), [], [], [], [], [])\n        outfile.writeln', '        subscribe_arg = VariableObject("uint8", "service", False, "1", str(service.get_id() % 128), True)\n        subscribe_fn = FunctionObject("subscribe", 0, [subscribe_arg], [])\n        control_service = ServiceObject(service.get_namespace(), 0, service.get_name(), [], [], [], [], [])\n        outfile.writeln')
m('event-single-all', 'C01', L, '"__status = gracht_server_send_event(server, client, &__buffer, 0);\\n"', '"__status = gracht_server_broadcast_event(server, &__buffer, 0);\\n"')
m('string-nodup', 'C01', L, '{name}_out[__i] = strdup(__string);', '{name}_out[__i] = __string;')
m('string-arr-stop', 'C01', L, 'for (uint32_t __i = 0; __i < __count; __i++) {{")\n        outfile.indent_inc()\n        outfile.writeln("char* __string', 'for (uint32_t __i = 0; __i < GRMIN(__count, {name}_count); __i++) {{")\n        outfile.indent_inc()\n        outfile.writeln("char* __string')
# structure of files, parsing
m('scoped-no-namespace', 'C15', L, 'return namespaced_type.get_namespace().lower() + "_" + namespaced_type.get_name().lower()', 'return namespaced_type.get_name().lower() if namespaced_type.get_namespace() == "anon" else namespaced_type.get_namespace().lower() + "_" + namespaced_type.get_name().lower()')
m('enum-value-0', 'C15 C01', L, 'if value.get_value() is None:\n            outfile', 'if not value.get_value():\n            outfile')
m('import-ns-kept', 'C15', PA, '        self.stored_namespaces.append(self.namespace)\n        self.namespace = "anon"', '        self.stored_namespaces.append(self.namespace)')
m('import-ns-not-restored', 'C15', PA, 'self.namespace = self.stored_namespaces.pop()', 'self.stored_namespaces.pop()')
m('import-cwd', 'C15', PA, 'self.cwd = os.path.dirname(os.path.realpath(os.path.join(self.cwd, sub_file)))', 'self.cwd = os.path.realpath(os.path.join(self.stored_cwds[0], os.path.dirname(sub_file)))')
m('import-ext', 'C15', PA, 'if not fileToImport.endswith(".gr"):', 'if "." not in fileToImport:')
m('range-fn-0', 'C15', VA, 'if func.get_id() < 1 or func.get_id() > 255:', 'if func.get_id() < 0 or func.get_id() > 255:')
m('range-evt-256', 'C15', VA, 'if evt.get_id() < 1 or evt.get_id() > 255:', 'if evt.get_id() < 1 or evt.get_id() > 256:')
m('range-svc-0', 'C15', VA, 'if service.get_id() < 1 or service.get_id() > 255:', 'if service.get_id() < 0 or service.get_id() > 255:')
m('dup-evt', 'C15', VA, '        ids_parsed.append(evt.get_id())\n', '')
m('dup-evt-fn', 'C15', VA, '    for evt in service.get_events():\n        if evt.get_id() in ids_parsed:', '    ids_parsed = []\n    for evt in service.get_events():\n        if evt.get_id() in ids_parsed:')
m('resolve-resp', 'C15', VA, '''        for param in func.get_response_params():
            service_imports = resolve_type(service, service_imports, param)
''', '')
m('resolve-events', 'C15', VA, '''    for evt in service.get_events():
        for param in evt.get_params():
            service_imports = resolve_type(service, service_imports, param)
''', '')
m('resolve-struct', 'C15', VA, '''    for struct in service.get_structs():
        for member in struct.get_members():
            service_imports = resolve_type(service, service_imports, member)
''', '')
m('resolve-variant', 'C15', VA, '''            service_imports = resolve_type(service, service_imports, entry)
        return''', '''            pass
        return''')
m('imports-unsorted', 'C15', VA, 'sorted(set(service_imports))', 'list(set(service_imports))')
m('imports-first', 'C15', VA, 'service_imports.append(value_type[0].get_type_source())', 'service_imports = (service_imports + [value_type[0].get_type_source()])[-2:]')
m('consolidate-order', 'C01 C15', CO, '''            mems.insert(index, member_target)
            index += 1''', '''            mems.insert(index, member_target)''')
m('consolidate-no-rec', 'C01 C15', CO, '''        if not struct_target in done:
            consolidate_struct(service, done, struct_target)
''', '')
m('consolidate-append', 'C01 C15', CO, '''            mems.insert(index, member_target)
            index += 1''', '''            mems.append(member_target)''')
m('hex-upper', 'C15', PA, '"0123456789ABCDEFabcdef"', '"0123456789abcdef"')
m('negative-lost', 'C15', PA, '''    while scanner.current() == '-':
        scanner.consume()
    while''', '''    while scanner.current() == '-':
        scanner.consume()
        startIdx = scanner.index()
    while''')
m('comment-star', 'C15', PA, 'skip_until(scanner, data, "*/")', 'skip_until(scanner, data, "*/") if next_n_char(data, scanner.index() + 2) != "*" else skip_until(scanner, data, "**/")')
m('comment-line-eof', 'C15', PA, "        if scanner.current() == '\\n':\n            scanner.nextline()\n            break\n        scanner.consume()", "        if data_end(scanner):\n            scanner.nextline()\n            break\n        scanner.consume()", PA, 'def skip_line(scanner: Scanner):', "def data_end(scanner):\n    return scanner.current() == '\\n' or scanner.current() == ';'\n\n\ndef skip_line(scanner: Scanner):")
m('ident-digits', 'C15', PA, "if el.isdigit() or el.isalpha() or el == '_':", "if el.isalpha() or el == '_' or (el.isdigit() and el != '9'):")
m('match-tail', 'C15', PA, '''                if i == len(tokens):
                    return False
            else:
                return False
    return True''', '''            else:
                return False
    return True''')
m('include-substring', 'C15', L, '''            if (len(include_services) == 0) or (svc.get_name() in include_services):
                self.generate_server_header''', '''            if (len(include_services) == 0) or any(svc.get_name() in s for s in include_services):
                self.generate_server_header''')
m('services-keep-funcs', 'C15 C01', PA, '        self.funcs = []\n        self.events = []\n        return', '        self.funcs = []\n        return')
m('values-leak', 'C15', PA, 'self.values.copy()))\n        self.values = []', 'self.values))\n        self.values = []\n        self.values = self.values')
m('event-name-type', 'C15 C01', PA, '"value" if typeName in BUILTIN_TYPES else typeName', '"value"')
m('lookup-case', 'C15 C01', SH, '''    def lookup_struct(self, typename):
        for struct in self.structs:
            if struct.get_name().lower() == typename.lower():''', '''    def lookup_struct(self, typename):
        for struct in self.structs:
            if struct.get_name() == typename:''')
m('lookup-last', 'C15 C01', SH, '''    def lookup_enum(self, typename):
        for enum in self.enums:
            if enum.get_name().lower() == typename.lower():''', '''    def lookup_enum(self, typename):
        for enum in self.enums:
            if enum.get_name().lower().startswith(typename.lower()):''')
m('struct-prefix', 'C15 C01', SH, '''    def lookup_struct(self, typename):
        for struct in self.structs:
            if struct.get_name().lower() == typename.lower():''', '''    def lookup_struct(self, typename):
        for struct in self.structs:
            if struct.get_name().lower().startswith(typename.lower()):''')
m('callbacks-count', 'C15 C01', L, 'callback_array_size = str(len(service.get_events()))', 'callback_array_size = str(len(service.get_events()) + 1)')
