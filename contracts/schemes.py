"""URI schemes registered at the pinned commit (the table may grow)."""
SCHEMES = ['aaa', 'aaas', 'acap', 'afs', 'cap', 'cid', 'crid', 'data', 'dav', 'dict', 'dns', 'dtn', 'fax', 'file', 'ftp', 'go',
 'gopher', 'h323', 'http', 'https', 'iax', 'icap', 'im', 'imap', 'info', 'ipp', 'iris', 'iris.beep', 'iris.lwz',
 'iris.xpc', 'iris.xpcs', 'ldap', 'mailserver', 'mailto', 'mid', 'modem', 'msrp', 'msrps', 'mtqp', 'mupdate', 'news',
 'nfs', 'nntp', 'opaquelocktoken', 'pack', 'pop', 'pres', 'prospero', 'rtsp', 'service', 'shttp', 'sip', 'sips',
 'snews', 'snmp', 'soap.beep', 'soap.beeps', 'tag', 'tel', 'telnet', 'tftp', 'thismessage', 'tip', 'tn3270', 'tv',
 'urn', 'vemmi', 'videotex', 'wais', 'xmlrpc.beep', 'xmlrpc.beeps', 'xmpp', 'z39.50r', 'z39.50s']
