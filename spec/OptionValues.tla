---------------------------- MODULE OptionValues ----------------------------
(* The values that options have, with what they stand for.                 *)
A(s) == s
Modes == << <<A("rust"), "Rust">>, <<A("typescript"), "Typescript">>, <<A("typescript/typealias"), "TypescriptTypeAlias">>,
            <<A("kotlin"), "KotlinJackson">>, <<A("kotlin/jackson"), "KotlinJackson">>, <<A("kotlin/kotlinx"), "KotlinKotlinx">>,
            <<A("python"), "PythonPydantic">>, <<A("json_schema"), "JsonSchema">>, <<A("zod"), "ZodSchema">>, <<A("shape"), "Shape">> >>
Inputs == << <<"json", "Json">>, <<"sql", "Sql">> >>
Styles == << <<"add_imports", "AddImports">>, <<"assume_existing", "AssumeExisting">>, <<"qualified_paths", "QualifiedPaths">> >>
Formats == << <<"lowercase", "LowerCase">>, <<"uppercase", "UpperCase">>, <<"UPPERCASE", "UpperCase">>, <<"pascalcase", "PascalCase">>,
              <<"uppercamelcase", "PascalCase">>, <<"PascalCase", "PascalCase">>, <<"camelcase", "CamelCase">>, <<"camelCase", "CamelCase">>,
              <<"snakecase", "SnakeCase">>, <<"snake_case", "SnakeCase">>, <<"screamingsnakecase", "ScreamingSnakeCase">>,
              <<"SCREAMING_SNAKE_CASE", "ScreamingSnakeCase">>, <<"kebabcase", "KebabCase">>, <<"kebab-case", "KebabCase">>,
              <<"screamingkebabcase", "ScreamingKebabCase">>, <<"SCREAMING-KEBAB-CASE", "ScreamingKebabCase">> >>
Table(x) == CASE x = "output_mode" -> Modes [] x = "input_mode" -> Inputs [] x = "import_style" -> Styles [] OTHER -> Formats
Known(x) == {Table(x)[i][1] : i \in DOMAIN Table(x)}
MeansThe(x, v) == Table(x)[CHOOSE i \in DOMAIN Table(x) : Table(x)[i][1] = v][2]
=============================================================================
