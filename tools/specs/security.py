BOUND = 'Exploration: a fixed number of generated cases per tier, a pure function of VERIF_SEED; the claim is for what was generated. Keys come from a fixed set of 14 RSA keys so that nothing depends on chance. XML is read through a stand-in for libcxml, which is not installed here; cryptography is by OpenSSL and xmlsec.'

# Keys, certificates and signatures

prop('E01', 'Key delivery messages give the right keys to the right recipient only',
     '''A key delivery message which is encrypted for a certificate, written, read and decrypted with the matching private key gives exactly the keys, types, IDs, playlists and descriptions that went in, and any other key or damaged message is refused.
     The message names its signer, recipient, keys, trusted devices, content authenticator, disabled forensic marks and period of validity as asked, and lasts no longer than its signer's certificates; a message whose keys have different periods is refused.
     A message made for a playlist has a key for each encrypted asset and for nothing else.''',
     ['inputs', 'configurations'], 'Up to 6 keys; any text, times and offsets from UTC; signers with 1 to 3 certificates; recipients with keys of 2048 to 4096 bits; 4 formulations; up to 4 trusted devices; messages made elsewhere for SMPTE and Interop; times around the ends of the validity of certificates.',
     'The tests decrypt a few fixed messages and check single formulations.',
     ['src/decrypted_kdm.cc', 'src/decrypted_kdm_key.cc', 'src/encrypted_kdm.cc', 'src/key.cc', 'src/util.cc'],
     [('encryption', 'DecryptedKDM::encrypt'), ('decryption', 'DecryptedKDM::DecryptedKDM'), ('XML', 'EncryptedKDM::as_xml, data::EncryptedKDMData'), ('dates', 'day_less_than_or_equal, day_greater_than_or_equal')],
     'property-based testing: round trip; differential against an independent decryption and layout of the encrypted blocks; independent writer of messages; damage must be refused', BOUND)

prop('E02', 'Signatures verify, and cover everything that they should',
     '''Every playlist, packing list and key delivery message that is signed has a signature which verifies with the signer's leaf certificate and with no other, made with the algorithm for its standard, and accompanied by the signer's name and whole chain of certificates from leaf to root.
     Any change to what is signed, be it text, attributes or elements, makes the signature invalid.
     A key delivery message's signature is still good after it has been read and written again.''',
     ['inputs', 'configurations'], 'Generated playlists, packing lists, key delivery messages and arbitrary documents; signers with 1 to 3 certificates given in any order; 6 changes of 8 kinds to each.',
     'The tests check a single signature with an external program which is usually not present.',
     ['src/certificate_chain.cc', 'src/encrypted_kdm.cc', 'src/cpl.cc', 'src/pkl.cc'],
     [('signing', 'CertificateChain::sign, CertificateChain::add_signature_value'), ('KDMs', 'EncryptedKDM::EncryptedKDM')],
     'property-based testing: verification by xmlsec as the oracle, metamorphic changes which must break it', BOUND)

prop('E03', 'Certificates are read faithfully and chains are judged correctly',
     '''A certificate in any layout of PEM gives its own names, serial number, dates, thumbprint and public key, and keeps them when copied; anything else is refused.
     Certificates given in any order are put in order from root to leaf when they form a chain, and refused when any of them was not properly issued by another, is missing, repeated, unrelated or changed; a chain is valid only with the private key of its leaf.
     Chains that are made have the names, uses and periods that were asked for.''',
     ['inputs', 'configurations'], 'Names in 4 encodings with characters which need escaping, serial numbers of up to 47 digits, dates from 1970 to 2100, keys of 1024 to 4096 bits, certificates of up to 20kB; chains of 1 to 5 certificates in any order; 10 kinds of broken chain.',
     'The tests use one chain and a few orders of it.',
     ['src/certificate.cc', 'src/certificate_chain.cc'],
     [('reading', 'Certificate::read_string'), ('order', 'CertificateChain::root_to_leaf, CertificateChain::chain_valid'), ('keys', 'CertificateChain::private_key_valid, public_key_digest'), ('making', 'CertificateChain::CertificateChain')],
     'property-based testing: certificates generated from a specification that is then the oracle; single defects in chains must be noticed', BOUND)
