C="crates/rewrite/src/main.rs"
DEMO_HEAD=r'''
'''
SEEDS=[
dict(id="b05a",prop="B05",file=C,old="""            let names: Vec<&[u8]> = line.splitn(2, |byte| *byte == b' ').collect();""",new="""            let names: Vec<&[u8]> = line.split(|byte| *byte == b' ').take(2).collect();""",needs="a rename list with a new name that contains a space",breaks="The rest of the new name is dropped."),
dict(id="b05b",prop="B05",edits=[(C,"""            .insert(names[0].to_vec(), names[1].to_vec());
    }
    options.elf.add_needed""","""            .entry(names[0].to_vec())
            .or_default()
            .extend_from_slice(names[1].split(|byte| *byte == b'=').next().unwrap());
    }
    options.elf.add_needed""")],needs="--elf-replace-needed whose new name contains '='",breaks="The new name is cut."),
dict(id="b05c",prop="B05",file=C,old="""            if line.ends_with(b"\\n") {
                line.pop();
                if line.ends_with(b"\\r") {
                    line.pop();
                }
            }""",new="""            if line.ends_with(b"\\n") {
                line.pop();
                if line.ends_with(b"\\r") {
                    line.pop();
                }
            } else {
                line.pop();
            }""",needs="a rename list whose last line has no line end",breaks="The last character of the last name is lost."),
dict(id="b05d",prop="B05",file=C,old="    open_options.write(true).create(true).truncate(true);",new="    open_options.write(true).create(true);",needs="an existing longer output file",breaks="The tail of the old file stays."),
dict(id="b05e",prop="B05",file=C,old="            && out_metadata.is_file()",new="            && out_metadata.len() == 0",needs="a failing write to something that is not a regular file",breaks="removed device link"),
dict(id="b05f",prop="B05",file=C,old="""        open_options.mode(in_metadata.mode());""",new="""        open_options.mode(in_metadata.mode() & !0o111 | (in_metadata.mode() & 0o100));""",needs="executable input",breaks="mode"),
dict(id="b05g",prop="B05",file=C,old="""    if matches.get_flag("elf-print-soname")
        && let Some(soname) = rewriter.elf_soname()""",new="""    if matches.get_flag("elf-print-soname")
        && let Some(soname) = rewriter.elf_soname()
        && !soname.is_empty()""",needs="empty soname",breaks="no line"),
dict(id="b05h",prop="B05",file=C,old="""    options.elf.add_needed = matches
        .get_many::<String>("elf-add-needed")
        .unwrap_or_default()
        .map(|arg| arg.clone().into_bytes())
        .collect();""",new="""    options.elf.add_needed = matches
        .get_many::<String>("elf-add-needed")
        .unwrap_or_default()
        .map(|arg| arg.clone().into_bytes())
        .filter(|arg| !options.elf.delete_needed.contains(arg))
        .collect();""",needs="delete and add same needed",breaks="not added"),
dict(id="b05i",prop="B05",file=C,old="""            Ok(object::FileKind::Elf32) | Ok(object::FileKind::Elf64) => {}
            _ => {""",new="""            Ok(object::FileKind::Elf32) | Ok(object::FileKind::Elf64) => {}
            Err(err) => return Err(err.into()),
            _ => {""",needs="unrecognised input with the option",breaks="error"),
]
