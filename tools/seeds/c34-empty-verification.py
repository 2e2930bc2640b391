ID = 'c34-empty-verification'
PROPERTY = 'C34'
NEEDS = 'An attach whose tlsVerification is an empty text, as for a setting that is not filled in.'
BREAKS = 'A client that gave no verification setting is treated as one that asked for none.'
FILE = 'tls'
OLD = """    if verify == "ignore":
"""
NEW = """    if not verify or verify == "ignore":
"""
DEMO = r'''
import ssl
import sys
from ansibug._tls import create_client_tls_context

try:
    ctx = create_client_tls_context("")
except ValueError:
    sys.exit(0)
if ctx.verify_mode != ssl.VerifyMode.CERT_REQUIRED or not ctx.check_hostname:
    sys.exit("VIOLATED: not verified")
'''
