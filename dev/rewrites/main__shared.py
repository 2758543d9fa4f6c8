from argparse import ArgumentParser, ArgumentTypeError, FileType
from enum import Enum
from pathlib import Path
from typing import Callable, Dict, List, NoReturn, Tuple
import json
import sys

import urllib3

from aas_test_engines import api, config, file, http
from aas_test_engines.result import AasTestResult

urllib3.disable_warnings(urllib3.exceptions.InsecureRequestWarning)


class InputFormats(Enum):
    xml = "xml"
    json = "json"
    aasx = "aasx"

    def __str__(self):
        return self.value


class OutputFormats(Enum):
    TEXT = "text"
    JSON = "json"
    HTML = "html"


_PRINTERS: Dict[OutputFormats, Callable[[AasTestResult], None]] = {
    OutputFormats.TEXT: lambda result: result.dump(),
    OutputFormats.HTML: lambda result: print(result.to_html()),
    OutputFormats.JSON: lambda result: print(json.dumps(result.to_dict())),
}


def _add_output(parser: ArgumentParser) -> None:
    parser.add_argument("--output", type=OutputFormats, default=OutputFormats.TEXT, choices=[*OutputFormats])


def _finish(result: AasTestResult, output: OutputFormats) -> NoReturn:
    _PRINTERS[output](result)
    sys.exit(not result.ok())


def _fail(*lines: str) -> NoReturn:
    print(*lines, sep="\n", file=sys.stderr)
    sys.exit(1)


def _parse_header_value(s: str) -> Tuple[str, str]:
    key, sep, value = s.partition(":")
    if not sep:
        raise ArgumentTypeError(f"Invalid format for header:value: '{s}'")
    return key.strip(), value.strip()


def run_file_test(argv):
    parser = ArgumentParser(description="Checks a file for compliance with the AAS meta-model")
    parser.add_argument("file", type=FileType("rb"), help="the file to check")
    parser.add_argument("--model_type", type=str, default="Environment", help="Check for a specific model type")
    parser.add_argument("--format", type=InputFormats, default=InputFormats.aasx, choices=[*InputFormats])
    _add_output(parser)
    args = parser.parse_args(argv)
    match args.format:
        case InputFormats.aasx if args.model_type != "Environment":
            raise Exception("Cannot set --model_type for --format aasx")
        case InputFormats.aasx:
            result = file.check_aasx_file(args.file)
        case InputFormats.json:
            result = file.check_json_file(args.file, model_type=args.model_type)
        case _:
            result = file.check_xml_file(args.file, model_type=args.model_type)
    _finish(result, args.output)


def _select_suite(version: str, text: str) -> str:
    versions = api.supported_versions()
    if version not in versions:
        _fail(f"Unknown version, must be one of {versions.keys()}")
    candidates = list(filter(lambda name: text in name, versions[version]))
    if not candidates:
        _fail(f"Unknown suite '{text}', must be one of:", *(f" - {i}" for i in versions[version]))
    if len(candidates) > 1:
        _fail(f"Substring '{text}' is not unique, covers:", *(f" - {i}" for i in candidates))
    [suite] = candidates
    return suite


def run_api_test(argv):
    parser = ArgumentParser(description="Checks a server instance for compliance with the AAS api")
    parser.add_argument("server", type=str, help="server to run the tests against")
    parser.add_argument("suite", type=str, help="test suite (or substring of it)")
    parser.add_argument("--header", nargs="+", default=[], type=_parse_header_value, help="Additional headers in the format header:value")
    parser.add_argument("--dry", action="store_true", help="dry run, do not send requests")
    parser.add_argument("--version", type=str, default=api.latest_version())
    parser.add_argument("--no-verify", dest="verify", action="store_false", help="do not check TLS certificate")
    parser.add_argument("--filter", type=config.TestCaseFilter)
    parser.add_argument("--remove-path-prefix", type=str, default="", help="remove prefix from all paths")
    _add_output(parser)
    args = parser.parse_args(argv)
    suite = _select_suite(args.version, args.suite)
    client = http.HttpClient(args.server, args.verify, args.remove_path_prefix, {k: v for k, v in args.header})
    conf = config.CheckApiConfig(suite, args.version, args.dry, args.filter)
    result, _ = api.execute_tests(client, conf)
    _finish(result, args.output)


def generate_files(argv):
    parser = ArgumentParser(description="Generates aas files which can be used to test your software")
    parser.add_argument("directory", type=Path, help="Directory to place files in")
    directory: Path = parser.parse_args(argv).directory
    if directory.exists():
        print(f"Directory '{directory}' already exists, please remove it")
        sys.exit(1)
    directory.mkdir()
    for idx, (is_valid, sample) in enumerate(file.generate()):
        name = "{}_{}.json".format(idx, "valid" if is_valid else "invalid")
        (directory / name).write_text(json.dumps(sample))


commands = {"check_file": run_file_test, "check_server": run_api_test, "generate_files": generate_files}

_USAGE = """Available commands:
  check_file      Check a file for compliance.
  check_server    Check a server instance for compliance.
  generate_files  Generate files for testing"""


def main():
    program, *arguments = sys.argv
    if not arguments:
        print(f"Usage: {program} COMMAND OPTIONS...", _USAGE, sep="\n")
        sys.exit(1)
    name, *rest = arguments
    command = commands.get(name)
    if command is None:
        print(f"Unknown command '{name}', must be one of {', '.join(commands)}")
        sys.exit(1)
    command(rest)


if __name__ == "__main__":
    main()
