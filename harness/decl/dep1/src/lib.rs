// generated
