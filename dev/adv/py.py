I="gyp/pylib/gyp/input.py"; CM="gyp/pylib/gyp/common.py"; MK="gyp/pylib/gyp/generator/make.py"; NJ="gyp/pylib/gyp/generator/ninja.py"; MS="gyp/pylib/gyp/generator/msvs.py"; XC="gyp/pylib/gyp/xcodeproj_file.py"; GI="gyp/pylib/gyp/__init__.py"; XE="gyp/pylib/gyp/xcode_emulation.py"; EX="gyp/pylib/gyp/easy_xml.py"
B="bad"
ADV=[
# P20 commands
("P20","rc-gt0",B,[(I,"if result.returncode != 0:","if result.returncode > 0:")]),
("P20","rc-stdout",B,[(I,"if result.returncode != 0:","if result.returncode != 0 and not result.stdout:")]),
("P20","rc-shell",B,[(I,"if result.returncode != 0:","if use_shell and result.returncode != 0:")]),
("P20","key-noshell",B,[(I,"cache_key = (command_string, use_shell, str(contents), build_file_dir)","cache_key = (command_string, str(contents), build_file_dir)")]),
("P20","key-base",B,[(I,"cache_key = (command_string, use_shell, str(contents), build_file_dir)","cache_key = (command_string, use_shell, str(contents), os.path.basename(build_file_dir or ''))")]),
("P20","key-join",B,[(I,"cache_key = (command_string, use_shell, str(contents), build_file_dir)","cache_key = (command_string, use_shell, (' '.join(contents) if isinstance(contents, list) else contents), build_file_dir)")]),
("P20","cwd-cond",B,[(I,"                            cwd=build_file_dir,\n","                            cwd=build_file_dir if use_shell else None,\n")]),
("P20","strip-all",B,[(I,'result.stdout.decode("utf-8").rstrip()','result.stdout.decode("utf-8").strip()')]),
("P20","pop0",B,[(I,"sys.path.pop()","sys.path.pop(0)")]),
("P20","oserror-only",B,[(I,"except Exception as e:\n                        raise GypError(\n                            \"%s while executing","except FileNotFoundError as e:\n                        replacement = ''\n                        result = subprocess.CompletedProcess(contents, 0, b'')\n                    except Exception as e:\n                        raise GypError(\n                            \"%s while executing")]),
("P20","chdir-late",B,[(I,"                        sys.path.pop()\n                        os.chdir(oldwd)","                        sys.path.pop()\n                        if build_file_dir and oldwd.startswith(build_file_dir):\n                            os.chdir(oldwd)")]),
("P20","import-err",B,[(I,"                        except ImportError as e:\n                            raise GypError(","                        except ModuleNotFoundError as e:\n                            py_module = None\n                        except ImportError as e:\n                            raise GypError(")]),
("P20","cache-early",B,[(I,"                    if result.returncode != 0:\n","                    cached_command_results[cache_key] = result.stdout.decode('utf-8').rstrip()\n                    if result.returncode != 0:\n")]),
("P20","run-bar",B,[(I,'run_command = "!" in match["type"]','run_command = "!" in match["type"] or contents_has_bang if False else match["type"].endswith(("!", "@"))')]),
("P20","array-shell",B,[(I,"                contents = eval(contents)\n                use_shell = False","                contents = eval(contents)\n                use_shell = len(contents) == 1")]),
# P21 conditions
("P21","first-false",B,[(I,"        if result is None:\n            result = EvalSingleCondition(","        if not result:\n            result = EvalSingleCondition(")]),
("P21","ast-key",B,[(I,"if cond_expr_expanded in cached_conditions_asts:\n            ast_code = cached_conditions_asts[cond_expr_expanded]","if cond_expr in cached_conditions_asts:\n            ast_code = cached_conditions_asts[cond_expr]"),(I,"cached_conditions_asts[cond_expr_expanded] = ast_code","cached_conditions_asts[cond_expr] = ast_code")]),
("P21","builtins",B,[(I,'env = {"__builtins__": {}, "v": Version}','env = {"v": Version}')]),
("P21","nameerr",B,[(I,"        raise GypError(e)\n\n\ndef ProcessConditionsInDict","        return false_dict\n\n\ndef ProcessConditionsInDict")]),
("P21","late-key",B,[(I,'        conditions_key = "target_conditions"\n    elif phase == PHASE_LATELATE:\n        return','        conditions_key = "target_conditions"\n    elif phase == PHASE_LATELATE:\n        conditions_key = "target_conditions"')]),
("P21","merge-first",B,[(I,"            ProcessVariablesAndConditionsInDict(\n                merge_dict, phase, variables, build_file\n            )\n\n            MergeDicts(the_dict, merge_dict, build_file, build_file)","            MergeDicts(the_dict, merge_dict, build_file, build_file)")]),
("P21","reversed",B,[(I,"    for condition in conditions_list:\n","    for condition in reversed(conditions_list):\n")]),
("P21","nodel",B,[(I,"    del the_dict[conditions_key]\n","    if not conditions_list:\n        del the_dict[conditions_key]\n")]),
("P21","dict-only",B,[(I,"        if not isinstance(true_dict, dict):\n            raise GypError(","        if not isinstance(true_dict, (dict, list)):\n            raise GypError(")]),
("P21","int-false",B,[(I,"        if eval(ast_code, env, variables):","        if eval(ast_code, env, variables) is True:")]),
("P21","checkedeval",B,[(I,'                build_file_data = eval(build_file_contents, {"__builtins__": {}}, None)','                build_file_data = eval(build_file_contents, {}, None)')]),
("P21","vars-eval",B,[(I,"        if eval(ast_code, env, variables):","        if eval(ast_code, env, dict(variables, **os.environ)):")]),
# P22 variables
("P22","novarscopy",B,[(I,"    variables = variables_in.copy()\n    LoadAutomaticVariablesFromDict(variables, the_dict)\n\n    if \"variables\" in the_dict:","    variables = variables_in\n    LoadAutomaticVariablesFromDict(variables, the_dict)\n\n    if \"variables\" in the_dict:")]),
("P22","noreload",B,[(I,"    # Conditional processing may have resulted in changes to automatics or the\n    # variables dict.  Reload.\n    variables = variables_in.copy()\n    LoadAutomaticVariablesFromDict(variables, the_dict)\n    LoadVariablesFromVariablesDict(variables, the_dict, the_dict_key)\n","")]),
("P22","noreload1",B,[(I,"    # TODO(mark): Optimization: only reload if no changes were made.\n    variables = variables_in.copy()\n    LoadAutomaticVariablesFromDict(variables, the_dict)\n    LoadVariablesFromVariablesDict(variables, the_dict, the_dict_key)\n","")]),
("P22","default-over",B,[(I,"            if variable_name in variables:\n                # If the variable is already set, don't set it.\n                continue\n","")]),
("P22","auto-list",B,[(I,"        if type(value) in (str, int, list):\n            variables[\"_\" + key] = value","        if type(value) in (str, int):\n            variables[\"_\" + key] = value")]),
("P22","list-index",B,[(I,"                the_list[index : index + 1] = expanded\n                index += len(expanded)\n","                the_list[index : index + 1] = expanded\n                index += 1\n")]),
("P22","empty-list",B,[(I,"            elif isinstance(expanded, list):\n                the_list[index : index + 1] = expanded","            elif isinstance(expanded, list) and expanded:\n                the_list[index : index + 1] = expanded")]),
("P22","undef-empty",B,[(I,'                if contents[-1] in ["!", "/"]:','                if contents[-1] in ["!", "/", "+"]:')]),
("P22","split",B,[(I,"output = shlex.split(str(replacement))","output = str(replacement).split()")]),
("P22","canon-zero",B,[(I,"        if output == input:\n" if False else "    if IsStrCanonicalInt(input_str):\n        return int(input_str)","    if input_str.isdigit():\n        return int(input_str)")]),
("P22","canon-out",B,[(I,"            if IsStrCanonicalInt(outstr):\n                output[index] = int(outstr)","            if str(outstr).lstrip('-').isdigit():\n                output[index] = int(outstr)")]),
("P22","phase-late",B,[(I,'    elif phase == PHASE_LATELATE:\n        variable_re = latelate_variable_re\n        expansion_symbol = "^"','    elif phase == PHASE_LATELATE:\n        variable_re = late_variable_re\n        expansion_symbol = "^"')]),
("P22","sub-key",B,[(I,"            ProcessVariablesAndConditionsInDict(\n                value, phase, variables, build_file, key\n            )","            ProcessVariablesAndConditionsInDict(\n                value, phase, variables_in, build_file, key\n            )")]),
("P22","first-only",B,[(I,"    matches.reverse()\n","    matches = matches[-1:]\n")]),
("P22","no-reverse",B,[(I,"    matches.reverse()\n","")]),
("P22","quote",B,[(I,"encoded_replacement = gyp.common.EncodePOSIXShellList(replacement)","encoded_replacement = ' '.join(str(x) for x in replacement)")]),
("P22","expand-any",B,[(I,'expand_to_list = "@" in match["type"] and input_str == replacement','expand_to_list = "@" in match["type"]')]),
("P22","skip-int-key",B,[(I,"            the_dict[key] = expanded\n","            if expanded != '':\n                the_dict[key] = expanded\n")]),
("P22","no-rec",B,[(I,"            output = ExpandVariables(output, phase, variables, build_file)\n\n    # Convert","            pass\n\n    # Convert")]),
# P23 merging
("P23","prefix-order",B,[(I,"            to.insert(prepend_index, to_item)","            to.insert(0, to_item)")]),
("P23","prepend-dup",B,[(I,"            while singleton and to_item in to:","            while to_item in to:")]),
("P23","dash-path",B,[(I,"            if not (isinstance(item, str) and item.startswith(\"-\")):","            if not (isinstance(item, str) and item.startswith(\"--\")):")]),
("P23","q-empty",B,[(I,'                if ext == "?":\n                    continue','                if ext == "?" and to[list_base]:\n                    continue')]),
("P23","eq-keep",B,[(I,"                to[list_base] = []\n            elif ext == \"+\":","                to.setdefault(list_base, [])\n            elif ext == \"+\":")]),
("P23","share-list",B,[(I,"            else:\n                to[list_base] = []\n\n","            else:\n                if append and not IsPathSection(list_base):\n                    to[list_base] = v\n                    continue\n                to[list_base] = []\n\n")]),
("P23","dir-swap",B,[(I,"                    os.path.dirname(fro_file), os.path.dirname(to_file)\n","                    os.path.dirname(to_file), os.path.dirname(fro_file)\n")]),
("P23","slash",B,[(I,'        if item.endswith("/"):\n            ret += "/"\n','')]),
("P23","exception-re",B,[(I,'''exception_re = re.compile(r"""["']?[-/$<>^]""")''','''exception_re = re.compile(r"""["']?[-/$<>]""")''')]),
("P23","inherit-order",B,[(I,'for parent in configuration_dict.get("inherit_from", []):','for parent in reversed(configuration_dict.get("inherit_from", [])):')]),
("P23","visited",B,[(I,"            visited + [configuration],","            visited,")]),
("P23","conf-share",B,[(I,"new_configuration_dict[key] = gyp.simple_copy.deepcopy(target_val)","new_configuration_dict[key] = target_val")]),
("P23","conf-ext",B,[(I,"            key_base = key[:-1] if key_ext in key_suffixes else key\n            if key_base not in non_configuration_keys:\n                new_configuration_dict","            key_base = key\n            if key_base not in non_configuration_keys:\n                new_configuration_dict")]),
("P23","abstract",B,[(I,'        if old_configuration_dict.get("abstract"):\n            continue\n','        if old_configuration_dict.get("abstract") == "1":\n            continue\n')]),
("P23","bad-merge-int",B,[(I,"                if type(to[k]) not in (str, int):\n                    bad_merge = True","                if not isinstance(to[k], (str, int, list)):\n                    bad_merge = True")]),
("P23","default-conf",B,[(I,'target_dict["default_configuration"] = sorted(concrete)[0]','target_dict["default_configuration"] = sorted(target_dict["configurations"])[0]')]),
("P23","nested-paths",B,[(I,"            MergeLists(to_item, item, to_file, fro_file)","            MergeLists(to_item, item, to_file, fro_file, is_paths)")]),
("P23","seen-set",B,[(I,"                if is_hashable(to_item):\n                    hashable_to_set.add(to_item)\n        else:","        else:")]),
("P23","section-re",B,[(I,"    while section and section[-1:] in","    if section and section[-1:] in")]),
# P24 dependencies
("P24","wild-or",B,[(I,'if dependency_target != "*" and dependency_toolset != "*":','if dependency_target != "*":')]),
("P24","wild-suppress",B,[(I,'                    if int(dependency_target_dict.get("suppress_wildcard", False)):\n                        continue\n','')]),
("P24","dup-target",B,[(I,"            if target_name in targets:\n                raise GypError(\"Duplicate target","            if target_name in targets and targets[target_name] == target:\n                raise GypError(\"Duplicate target")]),
("P24","export-once",B,[(I,"                    dependencies.insert(index + add_index, imported_dependency)\n                    add_index = add_index + 1\n            index = index + 1","                    dependencies.insert(index + add_index, imported_dependency)\n                    add_index = add_index + 1\n            index = index + add_index")]),
("P24","none-trav",B,[(I,'            "dependencies_traverse", True\n','            "dependencies_traverse", False\n')]),
("P24","modules",B,[(I,'            "loadable_module",\n            "mac_kernel_extension",\n            "windows_driver",\n        ):','            "mac_kernel_extension",\n            "windows_driver",\n        ):')]),
("P24","shared-prop",B,[(I,'            "allow_sharedlib_linksettings_propagation", True','            "allow_sharedlib_linksettings_propagation", False')]),
("P24","cycle-len",B,[(I,"    if len(flat_list) != len(targets):","    if len(flat_list) != len(targets) and not root_node.dependents:")]),
("P24","file-cycle",B,[(I,"    if len(flat_list) != len(dependency_nodes):","    if not flat_list:")]),
("P24","hard",B,[(I,'                    and not dependency_dict.get("hard_dependency", False)','                    and not target_dict.get("hard_dependency", False)')]),
("P24","orig",B,[(I,'                    and dependency not in target_dict["dependencies"]','                    and dependency not in target_dict["dependencies_original"][:1]')]),
("P24","sort",B,[(I,"                    for dep in reversed(flat_list)","                    for dep in flat_list")]),
("P24","prune-self",B,[(I,"                    if t == target_name and (","                    if (")]),
("P24","filter-all",B,[(I,"                            target_dict[dependency_key] = Filter(\n                                target_dict[dependency_key], t\n                            )","                            target_dict[dependency_key] = Filter(\n                                dependencies, t\n                            )")]),
("P24","unify",B,[(I,"            if dependencies:\n                target_dict[dependency_key] = Unify(dependencies)","            if dependencies:\n                target_dict[dependency_key] = list(dict.fromkeys(reversed(dependencies)))")]),
("P24","flatten-first",B,[(I,"                        is_in_degree_zero = False\n                        break","                        is_in_degree_zero = node_dependent.dependencies[0].ref in flat_list\n                        break")]),
("P24","multi-toolset",B,[(I,"                if not multiple_toolsets:\n                    # Ignore","                if multiple_toolsets is None:\n                    # Ignore")]),
("P24","resolve-rel",B,[(CM,"        parsed_build_file = os.path.normpath(\n            os.path.join(os.path.dirname(build_file), parsed_build_file)\n        )","        parsed_build_file = os.path.normpath(parsed_build_file)")]),
("P24","toolset-default",B,[(CM,"        parsed_toolset = toolset","        parsed_toolset = 'target'")]),
("P24","link-self",B,[(I,"            if initial or not is_linkable:","            if initial:")]),
("P24","direct-ref",B,[(I,"            dependencies = dependency_nodes[target].DirectAndImportedDependencies(\n                targets\n            )\n        elif key","            dependencies = dependency_nodes[target].DirectDependencies()\n        elif key")]),
("P24","prune-deps",B,[(I,"        wanted_targets.extend(dependency_nodes[target].DeepDependencies())","        wanted_targets.extend(dependency_nodes[target].DirectDependencies())")]),
("P24","rebase",B,[(I,"                target_dict, dependency_dict[key], build_file, dependency_build_file\n","                target_dict, dependency_dict[key], build_file, build_file\n")]),
]
ADV += [
("P16","mk-dirs",B,[(MK,'command = "mkdir -p %s" % " ".join(sorted(dirs)) + "; " + command','command = "mkdir -p %s" % " ".join(dirs) + "; " + command')]),
("P16","mk-rule-dirs",B,[(MK,'mkdirs = "mkdir -p %s; " % " ".join(sorted(dirs))','mkdirs = "mkdir -p %s; " % " ".join(list(dirs))')]),
("P16","mk-ext",B,[(MK,"extensions = sorted({os.path.splitext(s)[1] for s in sources})","extensions = {os.path.splitext(s)[1] for s in sources}")]),
("P16","mk-toolsets",B,[(MK,"    for toolset in sorted(toolsets):","    for toolset in toolsets:")]),
("P16","mk-incl",B,[(MK,"    for include_file in sorted(include_list):","    for include_file in include_list:")]),
("P16","nj-implicit",B,[(NJ,"            implicit=sorted(implicit_deps),","            implicit=list(implicit_deps),")]),
("P16","nj-order",B,[(NJ,"            order_only=sorted(order_deps),","            order_only=sorted(order_deps, key=len),")]),
("P16","nj-all",B,[(NJ,'master_ninja.build("all", "phony", sorted(all_outputs))','master_ninja.build("all", "phony", list(all_outputs))')]),
("P16","nj-empty",B,[(NJ,"        for name in sorted(empty_target_names):","        for name in empty_target_names:")]),
("P16","nj-vars",B,[(NJ,"            needed_variables = sorted(needed_variables)","            needed_variables = list(needed_variables)")]),
("P16","ms-conf",B,[(MS,"    configs = sorted(configs)","    configs = list(configs)")]),
("P16","ms-props",B,[(MS,"    for props_file in sorted(props_files_of_rules):","    for props_file in props_files_of_rules:")]),
("P16","topo",B,[(CM,"        for neighbor in sorted(get_edges(node)):","        for neighbor in get_edges(node):")]),
("P16","xc-id",B,[(XC,"        for class_name in sorted(objects_by_class):","        for class_name in set(objects_by_class):")]),
("P16","in-bf",B,[(I,'    for build_file in sorted(data["target_build_files"]):\n        for target in data[build_file].get("targets", []):','    for build_file in data["target_build_files"]:\n        for target in data[build_file].get("targets", []):')]),
("P16","unify-set",B,[(I,"    return [seen.setdefault(e, e) for e in items if e not in seen]","    return list(set(items))")]),
("P16","guid-uuid",B,[("gyp/pylib/gyp/MSVSNew.py","    d = hashlib.md5((str(seed) + str(name)).encode(\"utf-8\")).hexdigest().upper()","    d = '%032X' % (hash(str(seed) + str(name)) & (2 ** 128 - 1))")]),
("P16","ms-edges",B,[(MS,"    for (name, configuration) in sorted(configurations.items()):","    for (name, configuration) in set(configurations.items()):")]),
("P16","nj-solibs",B,[(NJ,"gyp.common.EncodePOSIXShellList(sorted(solibs))","gyp.common.EncodePOSIXShellList(solibs)")]),
("P16","slnentries",B,[("gyp/pylib/gyp/MSVSNew.py","        all_entries = sorted(all_entries, key=attrgetter(\"path\"))","        all_entries = sorted(all_entries, key=id)")]),
("P16","listdir",B,[(GI,"    home_dot_gyp = ","    os.listdir(\".\")\n    home_dot_gyp = ") if False else (MK,"        # TODO: if the command contains \"$@\" ","        pass")]) if False else
("P16","osset",B,[("gyp/pylib/gyp/common.py","        self.map = {}","        self.map = {}\n        self.hashes = set()")]) if False else
("P16","deep-set",B,[(I,"            dependencies = OrderedSet()\n\n        for dependency in self.dependencies:\n            if dependency.ref is None:","            dependencies = set()\n\n        for dependency in self.dependencies:\n            if dependency.ref is None:")]),
]
