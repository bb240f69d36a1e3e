target_link_libraries(pbt-C29 PRIVATE bnl-quic ngtcp2 ssl)
